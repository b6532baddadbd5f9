// One simulated run: seed in, verdict and counters out.
#pragma once
#include "rt.h"
#include <cstdarg>
#include <string>

namespace sim {

static const int NCOUNT = 48;
struct Counter { char name[40]; uint64_t n; };
struct Result {                     // lives in memory shared with the parent process
    int state;                      // 0 running, 1 finished, 2 violation
    char kind[40], key[200], detail[2000], label[200];
    uint64_t hash, schedHash, steps, accesses, switches, regions, stalls, clockQ, ops, checks, config;
    uint64_t allocs, allocFailed;
    double simTime;
    Counter faults[NCOUNT], probes[NCOUNT];
    int logLen; char log[32768];
    uint64_t traceN, traceTotal;
};

struct Options {                    // everything a replay file can change
    uint64_t seed = 1;
    int threads = 1;
    bool noSched = false;           // run the workers one after another
    int fill = -1;                  // override memory contents
    bool replay = false;            // follow the listed switches
    bool keepLog = false;
    int maxOps = 1 << 30;
};

class Run {
public:
    Rng rng; uint64_t seed; int threads; Result* res;
    Options opt;
    // operations carry ordinals so that the minimiser can leave some out
    bool keep();                                    // next ordinal; false if dropped
    bool keepFault();                               // same, for fault points
    void op(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void config(uint64_t v) { res->config = (res->config ^ v) * 0x9E3779B97F4A7C15ull; res->config ^= res->config >> 32; }
    void fault(const char* name, uint64_t n = 1);
    void probe(const char* name, uint64_t n = 1);
    [[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void checked(uint64_t n = 1) { res->checks += n; }
    // swarm settings of this run
    SchedCfg sched; int fill, reuse;
    void sequential();                              // reference conditions: workers in turn
    void perturbed();                               // this run's schedule
    void drawSwarm();
    uint64_t steps0 = 0;
};

extern Run* g_run;
[[noreturn]] void finish();                         // the run held; for workloads that end the process themselves
void opLabel(const char* s);

} // namespace sim

extern const char* workloadName;
void workloadMain(sim::Run& r);
void workloadSetup(); // in the parent, before any run
extern bool workloadInitKokkos;
