// Deterministic-simulation runtime for MParT.
//
// Everything the library can observe as nondeterministic goes through here: OpenMP worker threads
// (libgomp entry points), every instrumented memory access (-fsanitize=thread call sites; this file
// provides the __tsan_* functions instead of libtsan), the heap, and the clock.  All of it is
// driven by one seeded generator, so a seed is one exactly repeatable execution.
#pragma once
#include <cstdint>
#include <cstddef>

namespace sim {

// ---- PRNG (splitmix64 / xoshiro-free, tiny and stable) -------------------------------------
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); } // inclusive
    double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double a, double b) { return a + (b - a) * uniform(); }
    bool chance(double p) { return uniform() < p; }
    double normal();
    Rng fork(uint64_t tag) const { Rng r(s ^ (tag * 0xD1B54A32D192ED03ull + 0x8CB92BA72F3D8DD7ull)); r.next(); return r; }
};

enum Strategy { S_RANDOM = 0, S_STALL = 1, S_PCT = 2, S_RR = 3, S_SEQ = 4, S_REPLAY = 5, S_NSTRAT = 5 };

struct SchedCfg {
    int strategy = S_SEQ;
    double mean = 1e9;          // mean number of accesses between preemptions
    int pctDepth = 3;
    uint64_t seed = 1;
};

struct SwitchPt { uint64_t step; int tid; };

// ---- one-time set-up --------------------------------------------------------------------------
void start(int nthreads);                    // fibers on; nthreads = OpenMP default team size
void runOnMainFiber(void (*fn)(void*), void* arg);
int teamSize();

// ---- schedules --------------------------------------------------------------------------------
void setSchedule(const SchedCfg& c);         // from now on
void setReplay(const SwitchPt* pts, size_t n, bool enabled);
size_t switchTrace(const SwitchPt** out);    // every scheduling decision taken so far
uint64_t scheduleHash();
uint64_t steps();                            // instrumented accesses so far inside parallel regions
uint64_t totalAccesses();
uint64_t numSwitches();
uint64_t numRegions();
uint64_t numStalls();
void setStepLimit(uint64_t maxAccesses);     // liveness bound; exceeding it is reported

// ---- heap -------------------------------------------------------------------------------------
enum Fill { F_ZERO = 0, F_NAN = 1, F_ONES = 2, F_RANDOM = 3, F_HUGE = 4, F_NFILL = 5 };
void setFill(int fill, uint64_t seed);       // contents of fresh and freed memory
void setReuse(int quarantineBlocks);         // 0: freed blocks reused at once
void clearStack();
void driverHeap(bool on);                     // allocations of the driver itself
void scribbleStack();                        // leave garbage on the unused part of the current stack
struct AllocStats { uint64_t count, bytes, failed, largest; };
AllocStats allocStats();
uint64_t heapLive();                         // bytes allocated and not freed
uint64_t heapPeak();                         // the most since the last reset
void resetHeapPeak();
void armAllocFault(uint64_t nth, bool persistent); // nth allocation from now (1-based) fails
uint64_t disarmAllocFault();                 // -> allocations seen while armed
bool allocFaultFired();
void setAllocLimit(uint64_t bytes);          // a single request above this fails (full memory)
struct NoFault { NoFault(); ~NoFault(); };   // harness code run from inside the library
struct LibScope { LibScope(); ~LibScope(); };// marks calls into the library under test

// ---- clock ------------------------------------------------------------------------------------
double now();                                // simulated seconds
void advance(double seconds);                // may be negative: a clock step backwards
void freezeClock(bool frozen);
uint64_t clockQueries();

// ---- reports ----------------------------------------------------------------------------------
// A violation found by the runtime itself (race, bad access, deadlock, hang) or by a workload.
[[noreturn]] void violation(const char* kind, const char* detail);
typedef void (*ReportFn)(const char* kind, const char* detail);
void setReporter(ReportFn fn);               // must not return
void setChecks(bool races, bool memory);

void hashMix(uint64_t v);                    // fold an observed value into the run's trace hash
uint64_t traceHash();

} // namespace sim
