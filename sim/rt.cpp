#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <new>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/auxv.h>
#include <time.h>
#include <link.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sched.h>
#include <unwind.h>

#define HIDDEN __attribute__((visibility("hidden")))
#define NOINL __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

extern "C" void* __cxa_get_globals();
namespace Kokkos { namespace Impl {
class OpenMPInternal;
extern thread_local int t_openmp_hardware_id;
extern thread_local OpenMPInternal* t_openmp_instance;
}}

namespace sim {

double Rng::normal() { double u = 1.0 - uniform(), v = uniform(); return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v); }

// =================================================================================================
// reports
static ReportFn g_reporter = nullptr;
static bool g_checkRaces = false, g_checkMem = false;
static bool g_reporting = false;
void setReporter(ReportFn fn) { g_reporter = fn; }
void setChecks(bool r, bool m) { g_checkRaces = r; g_checkMem = m; }
void violation(const char* kind, const char* detail)
{
    if(!g_reporting) { g_reporting = true; if(g_reporter) g_reporter(kind, detail); }
    fprintf(stderr, "sim: %s: %s\n", kind, detail);
    _exit(99);
}

static uint64_t g_hash = 0x1234567;
void hashMix(uint64_t v) { g_hash = (g_hash ^ v) * 0x9E3779B97F4A7C15ull; g_hash ^= g_hash >> 29; }
uint64_t traceHash() { return g_hash; }

// =================================================================================================
// heap: one fixed arena, size classes, optional quarantine, validity map per 8 bytes
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t ARENA_SIZE = 6ull << 30;
static const uintptr_t VALID = 0x200000000000ull;      // 1 byte per 8
static const uintptr_t STACKS = 0x300000000000ull;
static const size_t STACK_SIZE = 1 << 20;
static const int MAXF = 80;
static const uintptr_t SHADOW = 0x400000000000ull;     // race cells, arena
static const uintptr_t GSHADOW = 0x500000000000ull;    // race cells, globals
static const int NCELL = 4;

struct Hdr { uint32_t magic; uint32_t cls; uint64_t size; uint64_t span; void* base; };  // 32 bytes before the user pointer
static const uint32_t M_LIVE = 0xA110C8EDu, M_FREE = 0xF4EEF4EEu;
static bool g_heapReady = false;
static uintptr_t g_bump = ARENA;
// the driver's own allocations live apart, so that a run's addresses do not depend on what the driver did before
static const uintptr_t DRIVER_AT = ARENA + ARENA_SIZE - (2ull << 30);
static uintptr_t g_driverBump = DRIVER_AT; static bool g_driver = false;
void driverHeap(bool on) { g_driver = on; }
static uintptr_t g_kaLo = 0, g_kaHi = 0;
struct FreeNode { FreeNode* next; };
static FreeNode* g_free[256];
static void* g_quar[1 << 16]; static unsigned g_qHead = 0, g_qTail = 0, g_qMax = 0;
static int g_fill = 0; static Rng g_fillRng(7);
static AllocStats g_as;
static uint64_t g_allocLimit = 1ull << 30;
static bool g_armed = false, g_persist = false, g_fired = false; static uint64_t g_target = 0, g_seen = 0;
static int g_noFault = 0, g_lib = 0;

static void* xmap(uintptr_t at, size_t n)
{
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(p != (void*)at) { static const char m[] = "sim: cannot map arena\n"; (void)!write(2, m, sizeof m - 1); _exit(98); }
    return p;
}
static uintptr_t g_gLo, g_gHi;
extern "C" char __data_start, _end;
static void heapInit()
{
    g_heapReady = true;
    xmap(ARENA, ARENA_SIZE); xmap(VALID, ARENA_SIZE / 8); xmap(STACKS, (size_t)MAXF * STACK_SIZE); xmap(SHADOW, ARENA_SIZE * NCELL);
    g_gLo = (uintptr_t)&__data_start & ~63ull; g_gHi = ((uintptr_t)&_end + 63) & ~63ull;
    xmap(GSHADOW, ((g_gHi - g_gLo) * NCELL + 4095) & ~4095ull);
}
static inline uint8_t* vmap(uintptr_t a) { return (uint8_t*)(VALID + ((a - ARENA) >> 3)); }
static inline uint64_t* cellsOf(uintptr_t a) // word-aligned address -> its race cells, or null
{
    if(a - ARENA < ARENA_SIZE) return (uint64_t*)(SHADOW + (a - ARENA) * NCELL);
    if(a - g_gLo < g_gHi - g_gLo) return (uint64_t*)(GSHADOW + (a - g_gLo) * NCELL);
    return nullptr;
}
static unsigned classOf(size_t total, size_t& span)
{
    if(total <= 4096) { unsigned c = (unsigned)((total + 31) / 32); span = c * 32ull; return c; }
    unsigned c = 129; size_t s = 4096;
    while(s < total) { size_t n = s + s / 4; n = (n + 63) & ~63ull; s = n; ++c; }
    span = s; return c;
}
static uint64_t g_live = 0, g_peak = 0; // bytes allocated and not freed, the most since resetHeapPeak()
static void fillMem(void* p, size_t n)
{
    switch(g_fill) {
    case F_ZERO: memset(p, 0, n); break;
    case F_ONES: memset(p, 0xFF, n); break;
    case F_NAN: { uint64_t v = 0x7ff8000000000123ull; char* c = (char*)p; while(n >= 8) { memcpy(c, &v, 8); c += 8; n -= 8; } memset(c, 0x7f, n); break; }
    case F_HUGE: { double d = -8.7654321e+150; uint64_t v; memcpy(&v, &d, 8); char* c = (char*)p; while(n >= 8) { memcpy(c, &v, 8); c += 8; n -= 8; } memset(c, 0x55, n); break; }
    default: { char* c = (char*)p; while(n >= 8) { double d = (g_fillRng.uniform() - 0.5) * 20; memcpy(c, &d, 8); c += 8; n -= 8; } memset(c, (int)g_fillRng.below(256), n); }
    }
}
static void clearCells(uintptr_t a, size_t n);

// phase: the block ends up 'phase' bytes before an aligned address
static void* rawAlloc(size_t size, size_t align, size_t phase = 0)
{
    if(UNLIKELY(!g_heapReady)) heapInit();
    if(align < 16) align = 16;
    size_t total = size + 32 + 16 + (align > 16 ? align + phase : 0), span;
    unsigned cls = classOf(total, span);
    char* base = nullptr;
    if(UNLIKELY(g_driver)) {
        if(g_driverBump + span > ARENA + ARENA_SIZE) return nullptr;
        base = (char*)g_driverBump; g_driverBump += span;
    }
    else if(cls < 256 && g_free[cls]) { base = (char*)g_free[cls]; g_free[cls] = g_free[cls]->next; }
    else {
        if(g_bump + span > DRIVER_AT) return nullptr;
        base = (char*)g_bump; g_bump += span;
    }
    uintptr_t u = (((uintptr_t)base + 32 + phase + align - 1) & ~(align - 1)) - phase;
    Hdr* h = (Hdr*)(u - 32);
    h->magic = M_LIVE; h->cls = cls; h->size = size; h->span = span; h->base = base;
    // validity: everything in the span invalid except the user bytes
    if(!g_driver) { g_live += size; if(g_live > g_peak) g_peak = g_live; }
    memset(vmap((uintptr_t)base), 0, span / 8);
    memset(vmap(u), 8, size / 8);
    if(size & 7) *vmap(u + (size & ~7ull)) = size & 7;
    clearCells(u, size);
    fillMem((void*)u, size);
    return (void*)u;
}
static void recycle(Hdr* h)
{
    char* base = (char*)h->base; unsigned cls = h->cls;
    if(cls >= 256 || (uintptr_t)base >= DRIVER_AT) return;
    ((FreeNode*)base)->next = g_free[cls]; g_free[cls] = (FreeNode*)base;
}
// Failures are injected into the allocations that MParT, Eigen and the standard library make for MParT, and into
// the memory of Kokkos views.  Kokkos 3.7's own bookkeeping (labels of fences, which it builds in destructors and
// other functions that may not throw) aborts without memory whatever MParT does, so it is left alone.
static struct { uintptr_t lo, hi; } g_kokkosLib, g_stdLib;
static _Unwind_Reason_Code frameCb(struct _Unwind_Context* c, void* v)
{
    uintptr_t pc = _Unwind_GetIP(c); int* state = (int*)v; // state[0]: verdict, state[1]: frames seen
    if(++state[1] > 24) return _URC_END_OF_STACK;
    if(pc - g_kokkosLib.lo < g_kokkosLib.hi - g_kokkosLib.lo) { state[0] = pc - g_kaLo < g_kaHi - g_kaLo; return _URC_END_OF_STACK; }
    if(pc - g_stdLib.lo < g_stdLib.hi - g_stdLib.lo) return _URC_NO_REASON;
    if(state[1] > 4) return _URC_END_OF_STACK;
    return _URC_NO_REASON;
}
static bool mayFail() { int s[2] = {1, 0}; _Unwind_Backtrace(frameCb, s); return s[0]; }
static void* simMalloc(size_t size, size_t align = 16, size_t phase = 0)
{
    if(g_lib > 0 && g_noFault == 0) {
        g_as.count++; g_as.bytes += size; if(size > g_as.largest) g_as.largest = size;
        if(g_armed) {
            g_seen++;
            if(g_seen >= g_target && (g_persist || !g_fired) && mayFail()) { g_fired = true; g_as.failed++; errno = ENOMEM; return nullptr; }
        }
    }
    if(size > g_allocLimit) { g_as.failed++; errno = ENOMEM; return nullptr; }
    return rawAlloc(size, align, phase);
}
static void simFree(void* p)
{
    if(!p) return;
    uintptr_t u = (uintptr_t)p;
    if(u - ARENA >= ARENA_SIZE) return; // allocated by the dynamic loader before us
    Hdr* h = (Hdr*)(u - 32);
    if(h->magic != M_LIVE) {
        if(g_checkMem) violation("memory", h->magic == M_FREE ? "double free" : "free of a pointer that was not allocated");
        return;
    }
    h->magic = M_FREE; if((uintptr_t)h->base < DRIVER_AT) g_live -= h->size;
    memset(vmap(u), 0xFD, (h->size + 7) / 8);
    if(g_fill) fillMem(p, h->size);
    if(g_qMax) {
        g_quar[g_qHead++ & 0xFFFF] = h;
        while(g_qHead - g_qTail > g_qMax) recycle((Hdr*)g_quar[g_qTail++ & 0xFFFF]);
    } else recycle(h);
}
void setFill(int f, uint64_t seed) { g_fill = f; g_fillRng = Rng(seed); }
void setReuse(int q) { g_qMax = q > 60000 ? 60000 : q; while(g_qHead - g_qTail > g_qMax) recycle((Hdr*)g_quar[g_qTail++ & 0xFFFF]); }
AllocStats allocStats() { return g_as; }
uint64_t heapLive() { return g_live; }
uint64_t heapPeak() { return g_peak; }
void resetHeapPeak() { g_peak = g_live; }
void armAllocFault(uint64_t nth, bool persistent) { g_armed = true; g_persist = persistent; g_target = nth; g_seen = 0; g_fired = false; }
uint64_t disarmAllocFault() { g_armed = false; return g_seen; }
bool allocFaultFired() { return g_fired; }
void setAllocLimit(uint64_t b) { g_allocLimit = b; }
NoFault::NoFault() { ++g_noFault; }
NoFault::~NoFault() { --g_noFault; }
LibScope::LibScope() { ++g_lib; }
LibScope::~LibScope() { --g_lib; }

} // namespace sim
using namespace sim;

extern "C" {
void* malloc(size_t n)
{
    // Kokkos asks for size + 72 bytes and keeps the original pointer in front of the first 64-byte
    // boundary; place the block so that the view ends exactly where the valid bytes end.
    uintptr_t ra = (uintptr_t)__builtin_return_address(0);
    if(UNLIKELY(ra - g_kaLo < g_kaHi - g_kaLo) && n > 72) return simMalloc(n - 64, 64, 8);
    return simMalloc(n);
}
void free(void* p) { simFree(p); }
void* calloc(size_t a, size_t b) { size_t n; if(__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = simMalloc(n); if(p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n)
{
    if(!p) return simMalloc(n);
    if(n == 0) { simFree(p); return nullptr; }
    uintptr_t u = (uintptr_t)p;
    if(u - ARENA >= ARENA_SIZE) { void* q = simMalloc(n); if(q) memcpy(q, p, n); return q; }
    Hdr* h = (Hdr*)(u - 32);
    void* q = simMalloc(n); if(!q) return nullptr;
    memcpy(q, p, h->size < n ? h->size : n); simFree(p); return q;
}
void* memalign(size_t al, size_t n) { return simMalloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return simMalloc(n, al); }
int posix_memalign(void** out, size_t al, size_t n) { void* p = simMalloc(n, al); if(!p) return ENOMEM; *out = p; return 0; }
void* valloc(size_t n) { return simMalloc(n, 4096); }
void* pvalloc(size_t n) { return simMalloc((n + 4095) & ~4095ull, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((uintptr_t)p - 32))->size : 0; }
void* reallocarray(void* p, size_t a, size_t b) { size_t n; if(__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return realloc(p, n); }
void cfree(void* p) { simFree(p); }
}
static void* newImpl(size_t n, size_t al) { void* p = simMalloc(n ? n : 1, al); if(!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return newImpl(n, 16); }
void* operator new[](size_t n) { return newImpl(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simMalloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simMalloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { return newImpl(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return newImpl(n, (size_t)a); }
void operator delete(void* p) noexcept { simFree(p); }
void operator delete[](void* p) noexcept { simFree(p); }
void operator delete(void* p, size_t) noexcept { simFree(p); }
void operator delete[](void* p, size_t) noexcept { simFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { simFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { simFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simFree(p); }

// =================================================================================================
// fibers and the OpenMP runtime
namespace sim {

struct Team { int n; void (*fn)(void*); void* data; int alive; int barCount; unsigned barGen; struct Fiber* parent; unsigned singleGen; unsigned loopGen; long lNext, lEnd, lIncr, lChunk; int loopUsers; };
enum FState { FREE_, RUN_, BLOCK_JOIN, BLOCK_BAR, DONE_ };
struct Fiber {
    void* sp; char* stack; FState st; int vt; // vt: virtual thread id (index into vector clocks)
    Team* team; int tid; int level; unsigned barGen; unsigned singleSeen, loopSeen;
    uint32_t vc[MAXF]; void* eh[2]; int hwid; Kokkos::Impl::OpenMPInternal* inst; char* tls; int prio;
    void (*mainFn)(void*); void* mainArg;
};
static Fiber g_f[MAXF];
static Fiber* g_cur = nullptr;
static int g_on = 0, g_nthreads = 1, g_alive = 1; // alive: fibers that exist
static void* g_osSp;
static char* g_tlsBase = nullptr; static size_t g_tlsSize = 0;

static SchedCfg g_sc; static Rng g_sr(1);
static uint64_t g_steps = 0, g_total = 0, g_limit = ~0ull; static int64_t g_budget = 1ll << 60;
static uint64_t g_switches = 0, g_regions = 0, g_schedHash = 77, g_stalls = 0; static uint64_t g_lastSwitchStep = 0;
static int g_victim = -1, g_spins = 0; static uint64_t g_pctPts[16]; static int g_pctN = 0, g_pctNext = 0; static int g_pctLow = 0;
static SwitchPt* g_trace; static size_t g_traceN = 0, g_traceCap = 0;
static const SwitchPt* g_rep = nullptr; static size_t g_repN = 0, g_repI = 0; static bool g_replay = false;

extern "C" void sim_swtch(void** from, void* to);
asm(R"(
.text
.globl sim_swtch
.hidden sim_swtch
.type sim_swtch,@function
sim_swtch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swtch,.-sim_swtch
)");

static void recordSwitch(int vt)
{
    if(g_traceN == g_traceCap) {
        size_t nc = g_traceCap ? g_traceCap * 2 : 4096;
        SwitchPt* n = (SwitchPt*)mmap(nullptr, nc * sizeof(SwitchPt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if(g_trace) { memcpy(n, g_trace, g_traceN * sizeof(SwitchPt)); munmap(g_trace, g_traceCap * sizeof(SwitchPt)); }
        g_trace = n; g_traceCap = nc;
    }
    g_trace[g_traceN++] = SwitchPt{g_steps, vt};
    g_schedHash = (g_schedHash ^ (g_steps * 131 + vt)) * 0x9E3779B97F4A7C15ull; g_schedHash ^= g_schedHash >> 31;
}

static void switchTo(Fiber* to)
{
    Fiber* from = g_cur;
    if(from == to) return;
    void** eh = (void**)__cxa_get_globals();
    from->eh[0] = eh[0]; from->eh[1] = eh[1];
    from->hwid = Kokkos::Impl::t_openmp_hardware_id; from->inst = Kokkos::Impl::t_openmp_instance;
    if(g_tlsSize) { memcpy(from->tls, g_tlsBase, g_tlsSize); memcpy(g_tlsBase, to->tls, g_tlsSize); }
    eh[0] = to->eh[0]; eh[1] = to->eh[1];
    Kokkos::Impl::t_openmp_hardware_id = to->hwid; Kokkos::Impl::t_openmp_instance = to->inst;
    g_cur = to; g_switches++; g_lastSwitchStep = g_steps;
    sim_swtch(&from->sp, to->sp);
}

static void drawBudget()
{
    if(g_replay) { // next listed switch
        g_budget = 1ll << 60;
        if(g_repI < g_repN) g_budget = (int64_t)(g_rep[g_repI].step > g_steps ? g_rep[g_repI].step - g_steps : 1);
        if(g_budget > 4000000) g_budget = 4000000;
        return;
    }
    switch(g_sc.strategy) {
    case S_SEQ: g_budget = 4000000; break;
    case S_RR: g_budget = 1; break;
    case S_PCT: {
        g_budget = 4000000;
        if(g_pctNext < g_pctN && g_pctPts[g_pctNext] > g_steps && (int64_t)(g_pctPts[g_pctNext] - g_steps) < g_budget) g_budget = (int64_t)(g_pctPts[g_pctNext] - g_steps);
        break; }
    default: {
        double u = g_sr.uniform(); double x = -std::log(1 - u) * g_sc.mean;
        g_budget = x > 4e6 ? 4000000 : 1 + (int64_t)x; }
    }
}

// choose the next fiber among runnable ones; 'self' is a candidate only if it is runnable
static Fiber* choose(bool forced)
{
    Fiber* cand[MAXF]; int n = 0;
    for(int i = 0; i < MAXF; ++i) if(g_f[i].st == RUN_) cand[n++] = &g_f[i];
    if(n == 0) {
        // fibers blocked in join with nothing alive cannot happen; anything else is a deadlock
        violation("deadlock", "no worker can make progress");
    }
    if(n == 1) return cand[0];
    if(g_replay) {
        while(g_repI < g_repN && g_rep[g_repI].step < g_steps) ++g_repI;
        if(g_repI < g_repN && g_rep[g_repI].step == g_steps) {
            int want = g_rep[g_repI++].tid;
            for(int i = 0; i < n; ++i) if(cand[i]->vt == want) return cand[i];
        }
        if(!forced && g_cur->st == RUN_) return g_cur;
        // default: next in cyclic order
        for(int i = 0; i < n; ++i) if(cand[i]->vt > g_cur->vt) return cand[i];
        return cand[0];
    }
    switch(g_sc.strategy) {
    case S_RR:
        for(int i = 0; i < n; ++i) if(cand[i]->vt > g_cur->vt) return cand[i];
        return cand[0];
    case S_PCT: {
        if(forced && g_cur->st == RUN_) g_cur->prio = --g_pctLow; // spinning: demote
        else if(g_pctNext < g_pctN && g_steps >= g_pctPts[g_pctNext]) { g_pctNext++; g_cur->prio = --g_pctLow; }
        Fiber* b = cand[0];
        for(int i = 1; i < n; ++i) if(cand[i]->prio > b->prio) b = cand[i];
        return b; }
    case S_STALL: {
        // fairness: everybody else may be spinning on something only the stalled worker can provide
        bool give = forced && g_cur->st == RUN_; g_spins = give ? g_spins + 1 : 0; bool release = g_spins > 64; if(release) g_spins = 0;
        Fiber* o[MAXF]; int m = 0;
        for(int i = 0; i < n; ++i) if((release || cand[i]->vt != g_victim) && !(forced && cand[i] == g_cur)) o[m++] = cand[i];
        if(m < n) g_stalls++;
        if(m) return o[g_sr.below(m)];
        return cand[g_sr.below(n)]; }
    default: {
        if(forced && g_cur->st == RUN_) { // a spinning thread gives way
            Fiber* o[MAXF]; int m = 0; for(int i = 0; i < n; ++i) if(cand[i] != g_cur) o[m++] = cand[i];
            return o[g_sr.below(m)];
        }
        return cand[g_sr.below(n)]; }
    }
}
static NOINL void reschedule(bool forced)
{
    Fiber* n = choose(forced);
    if(n != g_cur) recordSwitch(n->vt);
    drawBudget();
    switchTo(n);
}
static NOINL void preempt()
{
    if(g_alive <= 1) { g_budget = 1ll << 60; return; }
    bool stuck = g_steps - g_lastSwitchStep >= 4000000;
    reschedule(stuck);
}
static void yieldNow() { if(g_on && g_alive > 1 && g_cur) { g_steps++; reschedule(true); } }

static inline void vcJoin(uint32_t* a, const uint32_t* b) { for(int i = 0; i < MAXF; ++i) if(b[i] > a[i]) a[i] = b[i]; }

static void finishWorker()
{
    Fiber* f = g_cur; Team* t = f->team;
    f->st = DONE_;
    vcJoin(t->parent->vc, f->vc);
    f->vc[f->vt]++;
    t->alive--; g_alive--;
    if(t->alive == 0 && t->parent->st == BLOCK_JOIN) t->parent->st = RUN_;
    Fiber* n = choose(true);
    recordSwitch(n->vt); drawBudget();
    switchTo(n);
    __builtin_unreachable();
}
static void fiberEntry()
{
    Fiber* f = g_cur;
    f->team->fn(f->team->data);
    finishWorker();
}
static void prepStack(Fiber* f, void (*entry)())
{
    char* top = f->stack + STACK_SIZE;
    fillMem(top - 24576, 24576);
    void** s = (void**)((uintptr_t)top & ~63ull);
    *--s = nullptr; *--s = nullptr; *--s = nullptr; // alignment: at entry rsp % 16 == 8
    *--s = (void*)entry;
    for(int i = 0; i < 6; ++i) *--s = nullptr;
    --s; uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    *(uint64_t*)s = 0; memcpy(s, &mx, 4); memcpy((char*)s + 4, &cw, 2);
    f->sp = s;
}

static void parallel(void (*fn)(void*), void* data, unsigned n)
{
    if(n == 0) n = g_nthreads;
    if(n > (unsigned)MAXF - 4) n = MAXF - 4;
    Fiber* me = g_cur;
    if(!g_on || !me) { // before start-up: serial
        fn(data); return;
    }
    Team t{}; t.n = (me->level >= 1) ? 1 : (int)n; t.fn = fn; t.data = data; t.parent = me; t.alive = t.n - 1;
    Team* ot = me->team; int otid = me->tid; unsigned oss = me->singleSeen, ols = me->loopSeen;
    me->team = &t; me->tid = 0; me->level++; me->singleSeen = me->loopSeen = 0;
    if(t.n > 1) {
        g_regions++;
        for(int i = 1; i < t.n; ++i) {
            Fiber* w = &g_f[i]; // virtual OpenMP worker i keeps its identity between regions
            w->team = &t; w->tid = i; w->level = me->level; w->st = RUN_; w->barGen = 0; w->singleSeen = w->loopSeen = 0;
            vcJoin(w->vc, me->vc); w->vc[w->vt]++;
            w->eh[0] = w->eh[1] = nullptr;
            prepStack(w, fiberEntry);
            g_alive++;
        }
        me->vc[me->vt]++;
        g_spins = 0; if(g_sc.strategy == S_STALL) g_victim = (int)g_sr.below(t.n);
        if(g_sc.strategy == S_PCT) {
            int p[MAXF]; for(int i = 0; i < t.n; ++i) p[i] = i + 1;
            for(int i = t.n - 1; i > 0; --i) { int j = (int)g_sr.below(i + 1); int x = p[i]; p[i] = p[j]; p[j] = x; }
            for(int i = 0; i < t.n; ++i) g_f[i].prio = p[i];
            g_pctLow = 0; g_pctNext = 0; g_pctN = g_sc.pctDepth < 16 ? g_sc.pctDepth : 16;
            double span = 400 * t.n;
            for(int i = 0; i < g_pctN; ++i) g_pctPts[i] = g_steps + 1 + (uint64_t)(g_sr.uniform() * span * std::exp(g_sr.uniform() * 3));
            for(int i = 1; i < g_pctN; ++i) for(int j = i; j > 0 && g_pctPts[j] < g_pctPts[j - 1]; --j) { uint64_t x = g_pctPts[j]; g_pctPts[j] = g_pctPts[j - 1]; g_pctPts[j - 1] = x; }
        }
        g_steps++;
        if(g_sc.strategy == S_RR || g_replay) drawBudget(); else reschedule(false);
    }
    fn(data);
    if(t.n > 1) {
        while(t.alive > 0) { me->st = BLOCK_JOIN; g_steps++; Fiber* nx = choose(true); recordSwitch(nx->vt); drawBudget(); switchTo(nx); }
        me->st = RUN_;
        for(int i = 1; i < t.n; ++i) { vcJoin(me->vc, g_f[i].vc); g_f[i].st = FREE_; }
        me->vc[me->vt]++;
    }
    me->team = ot; me->tid = otid; me->level--; me->singleSeen = oss; me->loopSeen = ols;
}

static void barrier()
{
    Fiber* me = g_cur; if(!g_on || !me || !me->team || me->team->n <= 1) return;
    Team* t = me->team;
    static uint32_t bvc[2][MAXF];
    unsigned g = t->barGen; uint32_t* b = bvc[g & 1];
    if(t->barCount == 0) memset(b, 0, sizeof bvc[0]);
    vcJoin(b, me->vc); me->vc[me->vt]++;
    if(++t->barCount == t->n) {
        t->barCount = 0; t->barGen++;
        for(int i = 0; i < t->n; ++i) { Fiber* f = &g_f[i]; if(i == 0) f = t->parent; vcJoin(f->vc, b); if(f->st == BLOCK_BAR) f->st = RUN_; }
        return;
    }
    me->st = BLOCK_BAR; g_steps++;
    while(t->barGen == g) { Fiber* nx = choose(true); recordSwitch(nx->vt); drawBudget(); switchTo(nx); }
}

// ---- sync objects keyed by address (atomics, locks) --------------------------------------------
struct Sync { uintptr_t a; uint32_t vc[MAXF]; };
static const unsigned NSYNC = 1 << 12; static Sync* g_sync = nullptr;
static Sync* syncOf(uintptr_t a)
{
    if(!g_sync) g_sync = (Sync*)mmap(nullptr, NSYNC * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    unsigned h = (unsigned)((a >> 2) * 2654435761u) & (NSYNC - 1);
    Sync* s = &g_sync[h]; // direct-mapped: collisions only add ordering, never reports
    return s;
}
static void acqrel(uintptr_t a)
{
    if(!g_on || g_alive <= 1 || !g_cur) return;
    Sync* s = syncOf(a); vcJoin(g_cur->vc, s->vc); vcJoin(s->vc, g_cur->vc); g_cur->vc[g_cur->vt]++;
}
static void lockAcquire(volatile int* owner, uintptr_t a)
{
    if(!g_on || !g_cur) return;
    while(*owner >= 0) { if(g_alive <= 1) violation("deadlock", "lock held by nobody runnable"); yieldNow(); }
    *owner = g_cur->vt; acqrel(a);
}
static void lockRelease(volatile int* owner, uintptr_t a) { if(!g_on || !g_cur) return; acqrel(a); *owner = -1; }

// ---- set-up ------------------------------------------------------------------------------------
static int phdrCb(struct dl_phdr_info* info, size_t, void*)
{
    if(info->dlpi_name && info->dlpi_name[0]) return 0; // main program only
    for(int i = 0; i < info->dlpi_phnum; ++i)
        if(info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data) { g_tlsBase = (char*)info->dlpi_tls_data; g_tlsSize = info->dlpi_phdr[i].p_memsz; }
    return 1;
}
static int libsCb(struct dl_phdr_info* info, size_t, void*)
{
    uintptr_t lo = ~0ull, hi = 0;
    for(int i = 0; i < info->dlpi_phnum; ++i) if(info->dlpi_phdr[i].p_type == PT_LOAD) { uintptr_t a = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr; if(a < lo) lo = a; if(a + info->dlpi_phdr[i].p_memsz > hi) hi = a + info->dlpi_phdr[i].p_memsz; }
    if(info->dlpi_name && strstr(info->dlpi_name, "libkokkoscore")) g_kokkosLib = {lo, hi};
    if(info->dlpi_name && strstr(info->dlpi_name, "libstdc++")) g_stdLib = {lo, hi};
    return 0;
}
static void mainEntry() { Fiber* f = g_cur; f->mainFn(f->mainArg); void* dummy; sim_swtch(&dummy, g_osSp); }
void start(int nthreads)
{
    if(!g_heapReady) heapInit();
    dl_iterate_phdr(phdrCb, nullptr); dl_iterate_phdr(libsCb, nullptr);
    if(void* f = dlsym(RTLD_DEFAULT, "_ZNK6Kokkos9HostSpace13impl_allocateEPKcmm28Kokkos_Profiling_SpaceHandle")) {
        Dl_info di; ElfW(Sym)* sy = nullptr;
        if(dladdr1(f, &di, (void**)&sy, RTLD_DL_SYMENT) && sy) { g_kaLo = (uintptr_t)f; g_kaHi = g_kaLo + sy->st_size; }
    }
    if(!g_kaLo) { fprintf(stderr, "sim: Kokkos allocator not found\n"); _exit(98); }
    g_nthreads = nthreads;
    for(int i = 0; i < MAXF; ++i) {
        g_f[i].stack = (char*)(STACKS + (size_t)i * STACK_SIZE); g_f[i].vt = i; g_f[i].st = FREE_; g_f[i].vc[i] = 1;
        if(i > 0) mprotect(g_f[i].stack, 4096, PROT_NONE);
        if(g_tlsSize) { g_f[i].tls = (char*)rawAlloc(g_tlsSize, 64); memcpy(g_f[i].tls, g_tlsBase, g_tlsSize); }
        g_f[i].hwid = Kokkos::Impl::t_openmp_hardware_id; g_f[i].inst = Kokkos::Impl::t_openmp_instance;
    }
}
void runOnMainFiber(void (*fn)(void*), void* arg)
{
    Fiber* f = &g_f[0]; f->st = RUN_; f->mainFn = fn; f->mainArg = arg; f->team = nullptr; f->tid = 0; f->level = 0;
    prepStack(f, mainEntry);
    g_cur = f; g_on = 1; g_alive = 1;
    sim_swtch(&g_osSp, f->sp);
    g_on = 0; g_cur = nullptr;
}
int teamSize() { return g_nthreads; }
void setSchedule(const SchedCfg& c) { g_sc = c; g_sr = Rng(c.seed); if(!g_replay) drawBudget(); }
void setReplay(const SwitchPt* p, size_t n, bool en) { g_rep = p; g_repN = n; g_repI = 0; g_replay = en; drawBudget(); }
size_t switchTrace(const SwitchPt** o) { *o = g_trace; return g_traceN; }
uint64_t scheduleHash() { return g_schedHash; }
uint64_t steps() { return g_steps; }
uint64_t totalAccesses() { return g_total; }
uint64_t numSwitches() { return g_switches; }
uint64_t numRegions() { return g_regions; }
uint64_t numStalls() { return g_stalls; }
void setStepLimit(uint64_t m) { g_limit = g_total + m; if(g_limit < m) g_limit = ~0ull; }
void clearStack() { char here; uintptr_t lo = (uintptr_t)g_cur->stack + 8192, hi = ((uintptr_t)&here - 1024) & ~63ull; if(hi > lo + 300000) lo = hi - 300000; memset((void*)lo, 0, hi - lo); }
NOINL void scribbleStack() { char buf[12288]; fillMem(buf, sizeof buf); asm volatile("" ::"r"(buf) : "memory"); }

// =================================================================================================
// memory accesses
static void clearCells(uintptr_t a, size_t n)
{
    if(!g_on) return;
    uintptr_t lo = a & ~7ull, hi = (a + n + 7) & ~7ull;
    uint64_t* c = cellsOf(lo); if(c) memset(c, 0, (hi - lo) * NCELL);
}
// cell: [vt:8][clk:32][..][off:3][len:4][w:1][a:1][1]
static inline uint64_t mkCell(int vt, uint32_t clk, unsigned off, unsigned len, bool w, bool at) { return ((uint64_t)vt << 56) | ((uint64_t)clk << 16) | (off << 8) | (len << 4) | (w ? 4 : 0) | (at ? 2 : 0) | 1; }
static NOINL void reportRace(uintptr_t a, unsigned len, bool w, uint64_t old, void* pc)
{
    char b[256];
    snprintf(b, sizeof b, "data race: thread %d %s of %u bytes at pc %p with unordered %s by thread %d", g_cur->vt, w ? "write" : "read", len, pc, (old & 4) ? "write" : "read", (int)(old >> 56));
    violation("race", b);
}
static NOINL void raceWord(uintptr_t a, unsigned len, bool w, bool at, void* pc)
{
    uintptr_t word = a & ~7ull; unsigned off = a & 7;
    uint64_t* c = cellsOf(word); if(!c) return;
    Fiber* f = g_cur; int vt = f->vt; uint32_t clk = f->vc[vt];
    uint64_t mine = mkCell(vt, clk, off, len, w, at);
    int slot = -1, empty = -1;
    for(int i = 0; i < NCELL; ++i) {
        uint64_t x = c[i];
        if(!x) { if(empty < 0) empty = i; continue; }
        if(x == mine) return;
        unsigned xo = (x >> 8) & 7, xl = (x >> 4) & 15; int xv = (int)(x >> 56); uint32_t xc = (uint32_t)(x >> 16);
        bool overlap = xo < off + len && off < xo + xl;
        if(overlap && xv != vt && (w || (x & 4)) && !(at && (x & 2)) && xc > f->vc[xv]) reportRace(a, len, w, x, pc);
        if(xo == off && xl == len) {
            if(xv == vt && ((w || !(x & 4)))) slot = i;                 // same thread, at least as strong
            else if(w && xc <= f->vc[xv]) slot = i;                     // dominated by this ordered write
        }
    }
    if(slot < 0) slot = empty;
    if(slot < 0) slot = (int)((g_steps ^ (a >> 3)) % NCELL);
    c[slot] = mine;
}
static NOINL void badAccess(uintptr_t a, unsigned len, bool w, void* pc)
{
    uint8_t v = *vmap(a & ~7ull); char b[256];
    // describe the nearest block
    const char* what = v == 0xFD ? "freed memory" : "memory outside any allocation";
    size_t bsz = 0; long dist = -1;
    for(uintptr_t q = a & ~15ull; q > ARENA + 32 && a - q < (1 << 20); q -= 16) { Hdr* h = (Hdr*)(q - 32); if((h->magic == M_LIVE || h->magic == M_FREE) && h->base && (uintptr_t)h->base <= q && q - (uintptr_t)h->base < h->span) { bsz = h->size; dist = (long)(a - q); break; } }
    snprintf(b, sizeof b, "%s of %u bytes in %s at pc %p (offset %ld of a %zu-byte block)", w ? "write" : "read", len, what, pc, dist, bsz);
    violation("memory", b);
}
static inline void memCheck(uintptr_t a, unsigned len, bool w, void* pc)
{
    if(a - ARENA >= ARENA_SIZE) return;
    uintptr_t w0 = a & ~7ull; uint8_t v = *vmap(w0);
    unsigned off = a & 7;
    if(off + len <= 8) { if(LIKELY(v == 8)) return; if(v == 0 || v > 8 || off + len > v) badAccess(a, len, w, pc); return; }
    if(v != 8) badAccess(a, len, w, pc);
    for(uintptr_t q = w0 + 8; q < a + len; q += 8) { uint8_t x = *vmap(q); unsigned need = (unsigned)((a + len - q) < 8 ? (a + len - q) : 8); if(x == 8) continue; if(x == 0 || x > 8 || need > x) badAccess(a, len, w, pc); }
}
static NOINL void limitHit() { g_limit = ~0ull; violation("no-progress", "an operation did not finish within the step bound"); }

static inline void access(uintptr_t a, unsigned len, bool w, bool at, void* pc)
{
    if(UNLIKELY(!g_on)) return;
    if(UNLIKELY(++g_total >= g_limit)) limitHit();
    if(g_checkMem) memCheck(a, len, w, pc);
    if(g_alive > 1) {
        ++g_steps;
        if(g_checkRaces) {
            unsigned off = a & 7;
            if(LIKELY(off + len <= 8)) raceWord(a, len, w, at, pc);
            else { unsigned done = 0; while(done < len) { unsigned o = (a + done) & 7; unsigned n = 8 - o; if(n > len - done) n = len - done; raceWord(a + done, n, w, at, pc); done += n; } }
        }
        if(UNLIKELY(--g_budget <= 0)) preempt();
    }
}
} // namespace sim

extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
    void __tsan_read##n(void* p) { sim::access((uintptr_t)p, n, false, false, PC); } \
    void __tsan_write##n(void* p) { sim::access((uintptr_t)p, n, true, false, PC); } \
    void __tsan_unaligned_read##n(void* p) { sim::access((uintptr_t)p, n, false, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { sim::access((uintptr_t)p, n, true, false, PC); } \
    void __tsan_volatile_read##n(void* p) { sim::acqrel((uintptr_t)p); sim::access((uintptr_t)p, n, false, true, PC); } \
    void __tsan_volatile_write##n(void* p) { sim::acqrel((uintptr_t)p); sim::access((uintptr_t)p, n, true, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { __tsan_volatile_read##n(p); } \
    void __tsan_unaligned_volatile_write##n(void* p) { __tsan_volatile_write##n(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long n) { for(unsigned long i = 0; i < n; i += 8) sim::access((uintptr_t)p + i, n - i < 8 ? n - i : 8, false, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { for(unsigned long i = 0; i < n; i += 8) sim::access((uintptr_t)p + i, n - i < 8 ? n - i : 8, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { sim::access((uintptr_t)p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { sim::access((uintptr_t)p, 8, false, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define PRE(p, n, w) sim::access((uintptr_t)(p), n, w, true, PC); sim::acqrel((uintptr_t)(p))
#define ATOM(bits, T, n) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { PRE(a, n, false); return *a; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { PRE(a, n, true); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { PRE(a, n, true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { PRE(a, n, true); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { PRE(a, n, true); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { PRE(a, n, true); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { PRE(a, n, true); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { PRE(a, n, true); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { PRE(a, n, true); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { PRE(a, n, true); T o = *a; if(o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { PRE(a, n, true); T o = *a; if(o == *c) { *a = v; return 1; } *c = o; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { PRE(a, n, true); T o = *a; if(o == c) *a = v; return o; }
ATOM(8, unsigned char, 1) ATOM(16, unsigned short, 2) ATOM(32, unsigned int, 4) ATOM(64, unsigned long, 8)
typedef unsigned __int128 u128;
ATOM(128, u128, 16)

// ---- libgomp ------------------------------------------------------------------------------------
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { sim::parallel(fn, d, n); }
void GOMP_barrier() { sim::barrier(); }
static volatile int g_critical = -1, g_atomicLock = -1;
void GOMP_critical_start() { sim::lockAcquire(&g_critical, (uintptr_t)&g_critical); }
void GOMP_critical_end() { sim::lockRelease(&g_critical, (uintptr_t)&g_critical); }
void GOMP_critical_name_start(void** p) { while(sim::g_on && *p) sim::yieldNow(); *p = (void*)1; sim::acqrel((uintptr_t)p); }
void GOMP_critical_name_end(void** p) { sim::acqrel((uintptr_t)p); *p = nullptr; }
void GOMP_atomic_start() { sim::lockAcquire(&g_atomicLock, (uintptr_t)&g_atomicLock); }
void GOMP_atomic_end() { sim::lockRelease(&g_atomicLock, (uintptr_t)&g_atomicLock); }
bool GOMP_single_start()
{
    sim::Fiber* f = sim::g_cur; if(!f || !f->team || f->team->n <= 1) return true;
    unsigned my = ++f->singleSeen; if(my > f->team->singleGen) { f->team->singleGen = my; return true; } return false;
}
// worksharing loops with dynamic/guided schedules
static bool loopNext(long* s, long* e)
{
    sim::Fiber* f = sim::g_cur; sim::Team* t = f->team;
    sim::acqrel((uintptr_t)t);
    if(t->lIncr > 0 ? t->lNext >= t->lEnd : t->lNext <= t->lEnd) return false;
    *s = t->lNext; long c = t->lNext + t->lChunk * t->lIncr;
    if(t->lIncr > 0 ? c > t->lEnd : c < t->lEnd) c = t->lEnd;
    t->lNext = c; *e = c; return true;
}
static sim::Team g_serialTeam;
static bool loopStart(long a, long b, long inc, long ch, long* s, long* e)
{
    sim::Fiber* f = sim::g_cur; if(!f->team) { g_serialTeam = sim::Team{}; g_serialTeam.n = 1; g_serialTeam.parent = f; f->team = &g_serialTeam; }
    unsigned my = ++f->loopSeen; sim::Team* t = f->team;
    if(my > t->loopGen) { t->loopGen = my; t->lNext = a; t->lEnd = b; t->lIncr = inc; t->lChunk = ch > 0 ? ch : 1; }
    return loopNext(s, e);
}
#define LOOP(name) \
    bool GOMP_loop_##name##_start(long a, long b, long i, long c, long* s, long* e) { return loopStart(a, b, i, c, s, e); } \
    bool GOMP_loop_##name##_next(long* s, long* e) { return loopNext(s, e); } \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) \
    { struct C { void (*fn)(void*); void* d; long a, b, i, c; } ctx{fn, d, a, b, i, c}; \
      sim::parallel([](void* p) { C* x = (C*)p; sim::Fiber* f = sim::g_cur; sim::Team* t = f->team; unsigned my = ++f->loopSeen; \
          if(my > t->loopGen) { t->loopGen = my; t->lNext = x->a; t->lEnd = x->b; t->lIncr = x->i; t->lChunk = x->c > 0 ? x->c : 1; } x->fn(x->d); }, &ctx, n); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
LOOP(runtime_x)
void GOMP_loop_end() { sim::barrier(); }
void GOMP_loop_end_nowait() {}

int omp_get_thread_num() { return sim::g_cur && sim::g_cur->team ? sim::g_cur->tid : 0; }
int omp_get_num_threads() { return sim::g_cur && sim::g_cur->team ? sim::g_cur->team->n : 1; }
int omp_get_max_threads() { return sim::g_nthreads; }
int omp_get_num_procs() { return 8; }
int omp_get_level() { return sim::g_cur ? sim::g_cur->level : 0; }
int omp_get_active_level() { return sim::g_cur && sim::g_cur->team && sim::g_cur->team->n > 1 ? 1 : 0; }
int omp_in_parallel() { return omp_get_active_level(); }
void omp_set_num_threads(int n) { if(n > 0) sim::g_nthreads = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_thread_limit() { return 1 << 30; }
int omp_get_proc_bind() { return 0; }
int omp_get_num_places() { return 0; }
int omp_get_ancestor_thread_num(int l) { return l == omp_get_level() ? omp_get_thread_num() : 0; }
int omp_get_team_size(int l) { return l == omp_get_level() ? omp_get_num_threads() : 1; }
void omp_init_lock(void** l) { *(int*)l = -1; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { sim::lockAcquire((volatile int*)l, (uintptr_t)l); }
void omp_unset_lock(void** l) { sim::lockRelease((volatile int*)l, (uintptr_t)l); }
int omp_test_lock(void** l) { if(*(int*)l >= 0) return 0; omp_set_lock(l); return 1; }

int sched_yield() { sim::yieldNow(); return 0; }

// ---- function-local statics ----------------------------------------------------------------------
int __cxa_guard_acquire(uint64_t* g)
{
    char* b = (char*)g;
    for(;;) {
        if(b[0]) { sim::acqrel((uintptr_t)g); return 0; }
        if(!b[1]) { b[1] = 1; return 1; }
        if(!(sim::g_on && sim::g_alive > 1)) sim::violation("deadlock", "recursive initialisation of a static");
        sim::yieldNow();
    }
}
void __cxa_guard_release(uint64_t* g) { char* b = (char*)g; sim::acqrel((uintptr_t)g); b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; }

// ---- clock -----------------------------------------------------------------------------------------
} // extern C
namespace sim {
static double g_now = 1.7e9; static bool g_frozen = false; static uint64_t g_clockQ = 0;
double now() { return g_now; }
void advance(double s) { g_now += s; }
void freezeClock(bool f) { g_frozen = f; }
uint64_t clockQueries() { return g_clockQ; }
static double tick() { g_clockQ++; if(!g_frozen) g_now += 1e-6; return g_now; }
}
extern "C" {
time_t time(time_t* t) { time_t v; if(sim::g_on) v = (time_t)sim::tick(); else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } if(t) *t = v; return v; }
int gettimeofday(struct timeval* tv, void*) noexcept
{
    if(sim::g_on) { double d = sim::tick(); tv->tv_sec = (time_t)d; tv->tv_usec = (suseconds_t)((d - (double)tv->tv_sec) * 1e6); return 0; }
    struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if(sim::g_on) { double d = sim::tick(); ts->tv_sec = (time_t)d; ts->tv_nsec = (long)((d - (double)ts->tv_sec) * 1e9); return 0; }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
clock_t clock() noexcept { return sim::g_on ? (clock_t)((sim::tick() - 1.7e9) * CLOCKS_PER_SEC) : 0; }
double omp_get_wtime() { return sim::g_on ? sim::tick() : 0; }
int nanosleep(const struct timespec* r, struct timespec*) { if(sim::g_on) { if(!sim::g_frozen) sim::g_now += r->tv_sec + 1e-9 * r->tv_nsec; sim::yieldNow(); return 0; } return (int)syscall(SYS_nanosleep, r, nullptr); }
int usleep(useconds_t u) { struct timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }

// ---- Kokkos host barrier slow path (in libkokkoscore, not instrumented): same contract, as a yield point
void _ZN6Kokkos4Impl11HostBarrier29impl_backoff_wait_until_equalEPiib(int* p, int v, bool)
{
    for(;;) { sim::acqrel((uintptr_t)p); if(__atomic_load_n(p, __ATOMIC_SEQ_CST) == v) return; sim::yieldNow(); }
}
}

// ---- pthread mutexes: blocking would stop the only OS thread, so contention becomes a yield -------
#include <dlfcn.h>
#include <pthread.h>
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    int rc;
    while((rc = pthread_mutex_trylock(m)) == EBUSY) { if(!(sim::g_on && sim::g_alive > 1)) sim::violation("deadlock", "mutex locked twice"); sim::yieldNow(); }
    sim::acqrel((uintptr_t)m);
    return rc;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    static int (*real)(pthread_mutex_t*) = nullptr;
    if(!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    sim::acqrel((uintptr_t)m);
    return real(m);
}
}
