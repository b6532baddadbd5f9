// Kokkos' own thread-pool bookkeeping (growing the per-thread scratch pool) runs without injected
// allocation failures: Kokkos 3.7 itself aborts there, which is not MParT's behaviour.
#include <cstddef>
#include "rt.h"
extern "C" {
void __real__ZN6Kokkos4Impl14OpenMPInternal18resize_thread_dataEmmmm(void*, size_t, size_t, size_t, size_t);
void __wrap__ZN6Kokkos4Impl14OpenMPInternal18resize_thread_dataEmmmm(void* self, size_t a, size_t b, size_t c, size_t d)
{
    sim::NoFault nf;
    __real__ZN6Kokkos4Impl14OpenMPInternal18resize_thread_dataEmmmm(self, a, b, c, d);
}
}
int g_finalizeCalls = 0; // how often the library or the application shut the runtime down
extern "C" {
void __real__ZN6Kokkos8finalizeEv();
void __wrap__ZN6Kokkos8finalizeEv() { ++g_finalizeCalls; __real__ZN6Kokkos8finalizeEv(); }
}
