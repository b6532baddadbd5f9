// P13: any history of start-up calls, uses and ways to leave the process.
#include "world.h"
#include "MParT/Initialization.h"
#include "MParT/MapFactory.h"
#include <sstream>
#include <iostream>
#include <unistd.h>
using namespace world;
const char* workloadName = "p13"; bool workloadInitKokkos = false; void workloadSetup() {}
extern int g_finalizeCalls;
namespace {
bool g_active = false, g_expectRunning = false, g_appOwns = false, g_down = false; std::shared_ptr<CMap>* g_static = nullptr; int g_finals = 0, g_expectFinals = 0; 
void last()
{ // runs after every other exit handler and after the destructors of globals
    if(!g_active) return;
    sim::Run& R = *sim::g_run; 
    if(g_finals != g_expectFinals) R.fail("finalized", "the runtime was shut down %d times during the process's life, it should have been %d", g_finals, g_expectFinals);
    if(!g_down && g_finalizeCalls != g_expectFinals) R.fail("finalized", "the runtime was told to shut down %d times, it should have been %d", g_finalizeCalls, g_expectFinals);
    if(Kokkos::is_initialized() != g_expectRunning) R.fail("running", "at the end of the process the runtime is %s", g_expectRunning ? "not running" : "still running");
    R.checked(); sim::finish();
}
__attribute__((constructor(101))) void early() { atexit(last); }
void userHandler() { // registered after start-up: the runtime is still up when it runs
    if(g_down) return; if(!Kokkos::is_initialized()) sim::g_run->fail("handler-order", "an exit handler registered after start-up finds the runtime down");
    sim::LibScope ls; Kokkos::View<double*, Kokkos::HostSpace> v("v", 8); Kokkos::parallel_for(Kokkos::RangePolicy<Kokkos::OpenMP>(0, 8), [=](int i) { v(i) = i; }); double s = 0; for(int i = 0; i < 8; ++i) s += v(i); if(s != 28) sim::g_run->fail("handler-use", "a kernel in an exit handler gives the wrong result"); sim::g_run->probe("exit_handler");
}
void finalHook() { ++g_finals; }
}
void workloadMain(sim::Run& R)
{
    sim::Rng r = R.rng.fork(13); R.sequential(); g_active = true;
    bool warnOff = r.chance(0.3); const char* offs[] = {"OFF", "off", "Off", "oFF"}; const char* ons[] = {"ON", "", "0", "offf"};
    if(warnOff) setenv("MPART_WARNINGS", offs[r.below(4)], 1); else if(r.chance(0.4)) setenv("MPART_WARNINGS", ons[r.below(4)], 1); else unsetenv("MPART_WARNINGS");
    setenv("KOKKOS_DISABLE_WARNINGS", "true", 1); unsetenv("KOKKOS_NUM_THREADS");
    int expect = 0, deflt = R.threads; bool started = false;
    bool appFirst = r.chance(0.2); // the application starts the runtime itself and owns its shutdown
    if(appFirst && R.keep()) { int n = 1 + (int)r.below(6); R.op("application starts Kokkos with %d threads", n); sim::LibScope ls; Kokkos::InitializationSettings s; s.set_num_threads(n); Kokkos::initialize(s); Kokkos::push_finalize_hook(finalHook); expect = n; started = true; g_appOwns = true; R.probe("application_first"); }
    R.config(appFirst * 2 + warnOff);
    int steps = 1 + (int)r.below(8); Mat ref1; bool haveRef = false;
    for(int s = 0; s < steps; ++s) {
        sim::Rng q = r.fork(50 + s); if(!R.keep()) continue; int what = (int)q.below(6);
        if(what < 3 || !started) { // a start-up call
            std::ostringstream cap; std::streambuf* old = std::cout.rdbuf(cap.rdbuf()); int n = 0; int form = (int)q.below(4);
            R.op("Initialize form %d", form);
            try { sim::LibScope ls;
                if(form == 0) { n = 1 + (int)q.below(8); std::string a = (q.chance(0.5) ? "--kokkos-num-threads=" : "--kokkos-num-threads=") + std::to_string(n); std::vector<std::string> st{"prog", a, "other"}; std::vector<char*> av; for(auto& x : st) av.push_back(&x[0]); av.push_back(nullptr); int ac = 3; mpart::Initialize(ac, av.data()); }
                else if(form == 1) { n = 1 + (int)q.below(8); Kokkos::InitializationSettings is; is.set_num_threads(n); mpart::Initialize(is); }
                else if(form == 2) { char p[] = "prog"; char* av[] = {p, nullptr}; int ac = 1; mpart::Initialize(ac, av); }
                else { Kokkos::InitializationSettings is; mpart::Initialize(is); }
            } catch(...) { std::cout.rdbuf(old); throw; }
            std::cout.rdbuf(old);
            bool warned = cap.str().find("WARNING") != std::string::npos;
            bool first = !started; if(first) { expect = n ? n : deflt; started = true; { sim::LibScope ls; Kokkos::push_finalize_hook(finalHook); } }
            if(warned != (!first && !warnOff)) R.fail("warning", "call %d to Initialize %s a warning", s, warned ? "printed" : "did not print");
            if(warned && warnOff) R.fail("warning", "a warning was printed although warnings are off");
            if(!Kokkos::is_initialized()) R.fail("not-running", "after Initialize the runtime is not running");
            int c = Kokkos::OpenMP().concurrency(); if(c != expect) R.fail("settings", "after call %d the runtime has %d threads, the first call's settings say %d", s, c, expect);
            R.checked(); R.probe(first ? "first_start" : "repeated_start"); sim::hashMix(c);
        } else if(what == 3 || what == 4) { // use the library
            R.op("use");
            sim::LibScope ls; mpart::MapOptions mo; mo.basisType = mpart::BasisTypes::ProbabilistHermite; auto m = mpart::MapFactory::CreateTriangular<HS>(2, 2, 2, mo); DV c("c", m->numCoeffs); for(unsigned i = 0; i < m->numCoeffs; ++i) c(i) = 0.05 * (i % 5) - 0.1; m->SetCoeffs(c);
            Buf X(2, 7, ROW, 0); for(int i = 0; i < 2; ++i) for(int j = 0; j < 7; ++j) X.p[i * X.s0 + j * X.s1] = 0.3 * i - 0.2 * j; R.perturbed(); SM y = m->Evaluate(X.cview()); R.sequential();
            Mat got(2, 7); for(int i = 0; i < 2; ++i) for(int j = 0; j < 7; ++j) got(i, j) = y(i, j); hashResult(got);
            if(haveRef) { int a, b; if(differs(got, ref1, 0, 0, a, b)) R.fail("use", "the same evaluation differs from an earlier one at (%d,%d)", a, b); } ref1 = got; haveRef = true; R.checked(); R.probe("use");
            if(q.chance(0.5)) { static std::shared_ptr<CMap> local; local = m; g_static = &local; R.probe("static_map"); } // destroyed before the runtime is shut down
        } else { R.op("handler"); atexit(userHandler); }
    }
    if(!started) return;
    g_expectFinals = 1; g_expectRunning = false;
    int how = (int)r.below(4); bool kf = R.keep();
    if(g_appOwns) { // the application shuts the runtime down, or forgets to
        if(kf && r.chance(0.7)) { R.op("application finalizes Kokkos"); { sim::LibScope ls; if(g_static) g_static->reset(); Kokkos::finalize(); } g_down = true; g_expectFinals = 1; g_expectRunning = false; R.probe("application_finalizes"); }
        else { R.op("application leaves Kokkos running"); g_expectFinals = 0; g_expectRunning = true; R.probe("application_leaves"); }
    } else if(how == 0 && kf) { R.op("Finalize by hand"); { sim::LibScope ls; if(g_static) g_static->reset(); mpart::Finalize(); } g_down = true; if(Kokkos::is_initialized()) R.fail("finalize", "the runtime still runs after Finalize"); if(r.chance(0.3)) { sim::LibScope ls; mpart::Finalize(); R.probe("finalize_twice"); } R.probe("finalize_by_hand"); }
    R.op("exit");
    exit(0);
}
