// Zones whose names also occur elsewhere (built without merging of constants, so at other addresses).
#include "tools/profiler.h"
namespace vt {
#define Z(NAME, ID) static void Fn##ID() { PROFILER_ZONE(NAME); Scope s(NAME); Body(); }
Z("z0", 0) Z("z1", 1) Z("z2", 2) Z("q3", 3) Z("100%d %s %n1", 4) Z("zz0", 5)
HWY_NOINLINE static void Work() { PROFILER_FUNC; Scope s("Work"); Body(); }
template <int N> HWY_NOINLINE void SameName() { PROFILER_FUNC; Scope s("SameName"); asm volatile("" ::"i"(N)); Body(); }
HWY_NOINLINE static void Other() { PROFILER_FUNC; Scope s("Other"); Body(); }
Fn UNIT[10] = {&Work, &Fn0, &SameName<UNITNO>, &Fn1, &Other, &Fn2, &Fn3, &Fn4, &Fn5, &Work};
}  // namespace vt
