#include "driver.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <time.h>
#include <vector>
#include <string>
#include <algorithm>
#include <Kokkos_Core.hpp>
#include <ucontext.h>

namespace sim {

Run* g_run = nullptr;
static Result* R = nullptr;
static const size_t MAXTRACE = 1 << 21;
static SwitchPt* T = nullptr;         // shared: switches taken
static std::vector<int> g_drops, g_fdrops; // dropped ordinals
static std::vector<SwitchPt> g_list;  // schedule to follow
static int g_ord = 0, g_ford = 0;
static double g_t0;

static void copyOut()
{
    R->hash = traceHash(); R->schedHash = scheduleHash(); R->steps = steps(); R->accesses = totalAccesses();
    R->switches = numSwitches(); R->regions = numRegions(); R->stalls = numStalls(); R->clockQ = clockQueries();
    AllocStats a = allocStats(); R->allocs = a.count; R->allocFailed = a.failed;
    R->simTime = now() - g_t0;
    const SwitchPt* p; size_t n = switchTrace(&p);
    R->traceTotal = n; R->traceN = n < MAXTRACE ? n : MAXTRACE; if(n) memcpy((void*)T, (const void*)p, R->traceN * sizeof(SwitchPt));
}
static char g_exe[256];
static void report(const char* kind, const char* detail)
{
    if(R->state == 2) _exit(3);
    snprintf(R->kind, sizeof R->kind, "%s", kind);
    if(!R->key[0]) { // keep keys free of numbers that differ between runs
        snprintf(R->key, sizeof R->key, "%s@%s", kind, R->label);
    }
    snprintf(R->detail, sizeof R->detail, "%s", detail);
    R->state = 2; copyOut();
    _exit(2);
}
static void onSignal(int sig, siginfo_t* si, void* uc)
{
    char b[256]; ucontext_t* u = (ucontext_t*)uc;
    snprintf(b, sizeof b, "signal %d (%s) at pc %p", sig, strsignal(sig), sig == SIGABRT ? nullptr : (void*)u->uc_mcontext.gregs[REG_RIP]);
    (void)si;
    report(sig == SIGXCPU || sig == SIGALRM ? "no-progress" : "crash", b);
}
static void onTerminate()
{
    char b[700]; snprintf(b, sizeof b, "std::terminate called");
    if(std::exception_ptr e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch(std::exception& x) { snprintf(b, sizeof b, "std::terminate called: uncaught exception: %s", x.what()); }
        catch(...) { snprintf(b, sizeof b, "std::terminate called: uncaught exception of unknown type"); }
    }
    report("terminate", b);
}

bool Run::keep() { int o = g_ord++; return o < opt.maxOps && !std::binary_search(g_drops.begin(), g_drops.end(), o); }
bool Run::keepFault() { int o = g_ford++; return !std::binary_search(g_fdrops.begin(), g_fdrops.end(), o); }
void Run::op(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt); vsnprintf(R->label, sizeof R->label, fmt, ap); va_end(ap);
    R->ops++;
    log("%s", R->label);
    // key labels: strip anything after a space (arguments)
    if(char* sp = strchr(R->label, ' ')) *sp = 0;
}
void Run::log(const char* fmt, ...)
{
    char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 2, fmt, ap); va_end(ap);
    if(n > (int)sizeof b - 3) n = sizeof b - 3;
    b[n++] = '\n';
    uint64_t h = 1469598103934665603ull; for(int i = 0; i < n; ++i) h = (h ^ (unsigned char)b[i]) * 1099511628211ull;
    hashMix(h);
    if(R->logLen + n < (int)sizeof R->log) { memcpy(R->log + R->logLen, b, n); R->logLen += n; }
}
static void bump(Counter* c, const char* name, uint64_t n)
{
    for(int i = 0; i < NCOUNT; ++i) {
        if(!c[i].name[0]) { snprintf(c[i].name, sizeof c[i].name, "%s", name); c[i].n = n; return; }
        if(!strcmp(c[i].name, name)) { c[i].n += n; return; }
    }
}
void Run::fault(const char* name, uint64_t n) { if(n) bump(R->faults, name, n); }
void Run::probe(const char* name, uint64_t n) { if(n) bump(R->probes, name, n); }
void Run::fail(const char* key, const char* fmt, ...)
{
    char b[1900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    snprintf(R->key, sizeof R->key, "%s", key);
    violation("oracle", b);
}
void opLabel(const char* s) { snprintf(R->label, sizeof R->label, "%s", s); }

void Run::drawSwarm()
{
    Rng r = rng.fork(0x5A);
    static const double means[] = {1, 2, 4, 10, 30, 100, 400, 2000};
    sched.strategy = (int)r.below(4) == 3 ? S_RR : (int)r.below(3); // RANDOM, STALL, PCT, sometimes RR
    if(sched.strategy == S_RR && r.chance(0.6)) sched.strategy = S_RANDOM;
    sched.mean = means[r.below(8)];
    sched.pctDepth = 1 + (int)r.below(8);
    sched.seed = r.next();
    fill = (int)r.below(F_NFILL); if(r.chance(0.15)) fill = F_ZERO;
    static const int reuses[] = {0, 0, 1, 8, 200};
    reuse = reuses[r.below(5)];
    if(opt.noSched) sched.strategy = S_SEQ;
    if(opt.fill >= 0) fill = opt.fill;
}
void Run::sequential() { SchedCfg c; c.strategy = S_SEQ; c.seed = 1; setSchedule(c); setFill(F_ZERO, 1); setReuse(0); }
void Run::perturbed()
{
    setSchedule(sched); sched.seed = sched.seed * 6364136223846793005ull + 1442695040888963407ull;
    setFill(fill, sched.seed); setReuse(reuse);
    if(fill != F_ZERO) { scribbleStack(); fault("stale_memory"); }
    static const char* n[] = {"sched_random", "sched_stall", "sched_pct", "sched_round_robin", "sched_in_turn"};
    if(threads > 1) fault(n[sched.strategy]);
}

static void childMain(void* p)
{
    const Options& o = *(Options*)p;
    driverHeap(false); clearStack();
    static Run run; run.opt = o; run.seed = o.seed; run.threads = o.threads; run.res = R; g_run = &run;
    run.rng = Rng(o.seed * 0x2545F4914F6CDD1Dull + 0x9E37); run.rng.next();
    hashMix(o.seed); g_t0 = now();
    setReporter(report);
    setChecks(true, true);
    setStepLimit(400000000ull);
    if(o.replay) setReplay(g_list.data(), g_list.size(), true);
    run.drawSwarm();
    snprintf(R->label, sizeof R->label, "setup");
    try { workloadMain(run); }
    catch(std::exception& e) { char b[700]; int st; char* nm = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
        snprintf(b, sizeof b, "unexpected exception %s: %s", nm ? nm : typeid(e).name(), e.what()); violation("exception", b); }
    finish();
}
void finish()
{
    setChecks(false, false);
    copyOut();
    R->state = 1;
    _exit(0);
}

static int g_errFd = -1;
static double g_cpuLimit = 60;
static void runChild(const Options& o)
{
    memset((void*)R, 0, sizeof *R);
    (void)!ftruncate(g_errFd, 0); lseek(g_errFd, 0, SEEK_SET);
    pid_t pid = fork();
    if(pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(g_errFd, 1); dup2(g_errFd, 2);
        struct rlimit rl{(rlim_t)g_cpuLimit, (rlim_t)g_cpuLimit + 5}; setrlimit(RLIMIT_CPU, &rl);
        struct rlimit cl{0, 0}; setrlimit(RLIMIT_CORE, &cl);
        static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        struct sigaction sa{}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
        std::set_terminate(onTerminate);
        childMain((void*)&o);
        _exit(0);
    }
    int st = 0;
    while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if(R->state == 0) { // died without a word
        snprintf(R->kind, sizeof R->kind, "crash");
        snprintf(R->key, sizeof R->key, "crash@%s", R->label);
        if(WIFSIGNALED(st)) snprintf(R->detail, sizeof R->detail, "process killed by signal %d", WTERMSIG(st));
        else snprintf(R->detail, sizeof R->detail, "process exited early with status %d", WEXITSTATUS(st));
        if(WIFEXITED(st)) snprintf(R->kind, sizeof R->kind, "exit");
        R->state = 2;
    }
    if(R->state == 2) { // append the tail of what it printed
        off_t n = lseek(g_errFd, 0, SEEK_END); char b[1400]; ssize_t k = pread(g_errFd, b, n < 1300 ? n : 1300, 0);
        if(k > 0) { // blanks squeezed
            b[k] = 0; char c[700]; int m = 0; for(char* p = b; *p && m < 690; ++p) { bool w = *p == ' ' || *p == '\n' || *p == '\t'; if(w && m && c[m - 1] == ' ') continue; c[m++] = w ? ' ' : *p; } c[m] = 0;
            size_t l = strlen(R->detail); snprintf(R->detail + l, sizeof R->detail - l, " | output: %s", c); }
    }
}

static void jsonStr(FILE* f, const char* s)
{
    fputc('"', f);
    for(; *s; ++s) { unsigned char c = *s; if(c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static void counters(FILE* f, const char* name, const Counter* c)
{
    fprintf(f, ",\"%s\":{", name);
    for(int i = 0; i < NCOUNT && c[i].name[0]; ++i) { if(i) fputc(',', f); jsonStr(f, c[i].name); fprintf(f, ":%llu", (unsigned long long)c[i].n); }
    fputc('}', f);
}
static void emit(FILE* f, const Options& o, double wall, bool withLog)
{
    fprintf(f, "{\"seed\":%llu,\"threads\":%d,\"state\":%d,\"hash\":\"%016llx\",\"sched\":\"%016llx\",\"config\":\"%016llx\",\"steps\":%llu,\"acc\":%llu,\"switches\":%llu,\"regions\":%llu,\"stalls\":%llu,\"ops\":%llu,\"checks\":%llu,\"allocs\":%llu,\"clock\":%llu,\"sim\":%.6f,\"wall\":%.4f",
            (unsigned long long)o.seed, o.threads, R->state, (unsigned long long)R->hash, (unsigned long long)R->schedHash, (unsigned long long)R->config,
            (unsigned long long)R->steps, (unsigned long long)R->accesses, (unsigned long long)R->switches, (unsigned long long)R->regions, (unsigned long long)R->stalls,
            (unsigned long long)R->ops, (unsigned long long)R->checks, (unsigned long long)R->allocs, (unsigned long long)R->clockQ, R->simTime, wall);
    counters(f, "faults", R->faults); counters(f, "probes", R->probes);
    if(R->state == 2) { fprintf(f, ",\"kind\":"); jsonStr(f, R->kind); fprintf(f, ",\"key\":"); jsonStr(f, R->key); fprintf(f, ",\"detail\":"); jsonStr(f, R->detail); }
    if(withLog) { std::string l(R->log, R->logLen); fprintf(f, ",\"log\":"); jsonStr(f, l.c_str()); }
    fprintf(f, "}\n"); fflush(f);
}
static double wallNow() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }

// ---- replay files -----------------------------------------------------------------------------
static bool readReplay(const char* path, Options& o, std::string& kind, std::string& key)
{
    FILE* f = fopen(path, "r"); if(!f) return false;
    char w[64], buf[512];
    while(fscanf(f, "%63s", w) == 1) {
        if(!strcmp(w, "seed")) { unsigned long long s; if(fscanf(f, "%llu", &s) != 1) break; o.seed = s; }
        else if(!strcmp(w, "threads")) { if(fscanf(f, "%d", &o.threads) != 1) break; }
        else if(!strcmp(w, "fill")) { if(fscanf(f, "%d", &o.fill) != 1) break; }
        else if(!strcmp(w, "nosched")) { int v; if(fscanf(f, "%d", &v) != 1) break; o.noSched = v; }
        else if(!strcmp(w, "maxops")) { if(fscanf(f, "%d", &o.maxOps) != 1) break; }
        else if(!strcmp(w, "drop")) { int v; if(fscanf(f, "%d", &v) != 1) break; g_drops.push_back(v); }
        else if(!strcmp(w, "dropfault")) { int v; if(fscanf(f, "%d", &v) != 1) break; g_fdrops.push_back(v); }
        else if(!strcmp(w, "schedule")) { int v; if(fscanf(f, "%d", &v) != 1) break; o.replay = true; for(int i = 0; i < v; ++i) { unsigned long long s; int t; if(fscanf(f, "%llu %d", &s, &t) != 2) break; g_list.push_back(SwitchPt{s, t}); } }
        else if(!strcmp(w, "kind")) { if(fscanf(f, "%511s", buf) != 1) break; kind = buf; }
        else if(!strcmp(w, "key")) { if(fscanf(f, "%511s", buf) != 1) break; key = buf; }
        else if(!fgets(buf, sizeof buf, f)) break;
    }
    fclose(f);
    std::sort(g_drops.begin(), g_drops.end()); std::sort(g_fdrops.begin(), g_fdrops.end());
    return true;
}
static void writeReplay(const char* path, const Options& o, const char* property)
{
    FILE* f = fopen(path, "w"); if(!f) return;
    fprintf(f, "mpsim-replay 1\nproperty %s\nworkload %s\nseed %llu\nthreads %d\nnosched %d\nfill %d\nmaxops %d\nkind %s\nkey %s\nhash %016llx\n", property, workloadName, (unsigned long long)o.seed, o.threads, (int)o.noSched, o.fill, o.maxOps, R->kind, R->key, (unsigned long long)R->hash);
    for(int d : g_drops) fprintf(f, "drop %d\n", d);
    for(int d : g_fdrops) fprintf(f, "dropfault %d\n", d);
    if(o.replay) { fprintf(f, "schedule %zu\n", g_list.size()); for(auto& s : g_list) fprintf(f, "%llu %d\n", (unsigned long long)s.step, s.tid); }
    fprintf(f, "detail %s\n", R->detail);
    fprintf(f, "trace\n%.*s\n", R->logLen, R->log);
    fclose(f);
}

static Options g_o; static const char* g_mode = "run"; static const char* g_out = nullptr; static const char* g_prop = "?"; static const char* g_replayOut = nullptr;
static uint64_t g_count = 1, g_stride = 1, g_offset = 0; static double g_timeLimit = 1e9; static bool g_logs = false, g_stop = false; static int g_repeat = 1;
static std::string g_knownKeys;

static bool same(const std::string& kind, const std::string& key) { return R->state == 2 && kind == R->kind && key == R->key; }

static void minimize(std::string kind, std::string key, double limit)
{
    double t0 = wallNow();
    Options o = g_o; o.replay = false;
    auto ok = [&](const Options& t) { runChild(t); return same(kind, key); };
    if(!ok(o)) return;
    int tries = 0;
    // 1. sequential workers, clean memory
    { Options t = o; t.noSched = true; if(ok(t)) o = t; }
    { Options t = o; t.fill = 0; if(ok(t)) o = t; }
    // 2. cut the tail, then drop single operations and faults
    { int lo = 1, hi = 1 << 12; Options t = o;
      t.maxOps = hi; if(ok(t)) { while(lo < hi && wallNow() - t0 < limit * 0.3) { int m = (lo + hi) / 2; t.maxOps = m; if(ok(t)) hi = m; else lo = m + 1; } o.maxOps = hi; } }
    auto dropPass = [&](std::vector<int>& v, int n) {
        for(int chunk = n; chunk >= 1; chunk /= 2) {
            for(int a = 0; a < n; a += chunk) {
                if(wallNow() - t0 > limit * 0.6) return;
                std::vector<int> save = v;
                for(int i = a; i < a + chunk && i < n; ++i) v.push_back(i);
                std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
                if(v == save) continue;
                ++tries;
                if(!ok(o)) v = save;
            }
        }
    };
    dropPass(g_drops, o.maxOps < 200 ? o.maxOps : 200);
    dropPass(g_fdrops, 32);
    // 3. the schedule: replay the switches actually taken, then remove those that are not needed
    if(!o.noSched && o.threads > 1) {
        if(ok(o) && R->traceTotal <= MAXTRACE) {
            std::vector<SwitchPt> base(T, T + R->traceN);
            // switches matter only where they change the default choice; try removing blocks
            Options t = o; t.replay = true; g_list = base;
            if(ok(t)) {
                o = t;
                for(size_t chunk = base.size(); chunk >= 1; chunk /= 2) {
                    for(size_t a = 0; a < g_list.size();) {
                        if(wallNow() - t0 > limit) { chunk = 1; break; }
                        std::vector<SwitchPt> save = g_list;
                        g_list.erase(g_list.begin() + a, g_list.begin() + std::min(a + chunk, g_list.size()));
                        if(!ok(o)) { g_list = save; a += chunk; }
                    }
                }
            } else g_list.clear();
        }
    }
    g_o = o;
    ok(o);
}

static void mainOnFiber(void*)
{
    if(workloadInitKokkos) {
        Kokkos::InitializationSettings s; s.set_num_threads(g_o.threads);
        Kokkos::initialize(s);
    }
    workloadSetup();
    driverHeap(true);
    FILE* out = g_out ? fopen(g_out, "w") : stdout;
    if(!strcmp(g_mode, "run")) {
        double t0 = wallNow();
        for(uint64_t i = 0; i < g_count; ++i) {
            if(wallNow() - t0 > g_timeLimit) break;
            Options o = g_o; o.seed = g_o.seed + g_offset + i * g_stride;
            for(int k = 0; k < g_repeat; ++k) { double a = wallNow(); runChild(o); emit(out, o, wallNow() - a, g_logs); }
            if(R->state == 2 && g_stop) break;
        }
    } else if(!strcmp(g_mode, "minimize")) {
        runChild(g_o);
        if(R->state == 2) { std::string k = R->kind, y = R->key; minimize(k, y, g_timeLimit); emit(out, g_o, 0, true); if(R->state == 2 && g_replayOut) writeReplay(g_replayOut, g_o, g_prop); }
        else emit(out, g_o, 0, true);
    }
    if(out != stdout) fclose(out);
    fflush(stdout);
    _exit(0);
}
} // namespace sim
using namespace sim;

int main(int argc, char** argv)
{
    int per = personality(0xffffffff);
    if(!(per & ADDR_NO_RANDOMIZE) && !getenv("MPSIM_REEXEC")) { setenv("MPSIM_REEXEC", "1", 1); personality(per | ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
    std::string kind, key;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i]; const char* v = i + 1 < argc ? argv[i + 1] : "";
        if(a == "--seed") g_o.seed = strtoull(v, 0, 10), ++i;
        else if(a == "--threads") g_o.threads = atoi(v), ++i;
        else if(a == "--count") g_count = strtoull(v, 0, 10), ++i;
        else if(a == "--stride") g_stride = strtoull(v, 0, 10), ++i;
        else if(a == "--offset") g_offset = strtoull(v, 0, 10), ++i;
        else if(a == "--time") g_timeLimit = atof(v), ++i;
        else if(a == "--out") g_out = v, ++i;
        else if(a == "--mode") g_mode = v, ++i;
        else if(a == "--property") g_prop = v, ++i;
        else if(a == "--replay-out") g_replayOut = v, ++i;
        else if(a == "--replay") { if(!readReplay(v, g_o, kind, key)) { fprintf(stderr, "cannot read %s\n", v); return 4; } ++i; }
        else if(a == "--log") g_logs = true;
        else if(a == "--stop") g_stop = true;
        else if(a == "--repeat") g_repeat = atoi(v), ++i;
        else if(a == "--cpu") g_cpuLimit = atof(v), ++i;
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 4; }
    }
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    T = (SwitchPt*)mmap(nullptr, MAXTRACE * sizeof(SwitchPt), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_errFd = memfd_create("out", 0);
    start(g_o.threads);
    runOnMainFiber(mainOnFiber, nullptr);
    return 0;
}
