// Interface between the dispatch driver and modules compiled with different
// target configurations.
#ifndef VERIF_DISP_H_
#define VERIF_DISP_H_
#include <stddef.h>
#include <stdint.h>
#include <vector>
namespace vt {
// What the per-target versions of exported functions report.
struct Hit { int calls = 0; int64_t target = 0; int fn = -1; uint64_t args = 0; };
Hit& TlHit();  // thread-local
inline void Rec(int fn, int64_t target, uint64_t args) { Hit& h = TlHit(); h.calls++; h.target = target; h.fn = fn; h.args = args; }
struct Attr { int64_t target = 0; size_t bytes = 0; int f16 = -1, f64 = -1, i64 = -1; };
struct Mod {
  const char* name;
  int64_t targets, static_target;
  int num_kinds;
  bool real;                                 // versions need the CPU to support them
  const char* (*call)(int kind, uint64_t a);  // nullptr if everything returned/forwarded was right
  const void* (*pointer)();                  // HWY_DYNAMIC_POINTER of function 0
  const char* (*call_pointer)(const void* p, uint64_t a);
  const void* (*version)(int64_t target);    // address of that version of function 0, nullptr if not generated
  std::vector<int64_t> (*generated)();
  int64_t (*supported)();                    // HWY_SUPPORTED_TARGETS
  Hit init_hit;                              // call made by a static initializer, if requested
};
std::vector<Mod*>& Mods();
struct AddMod { explicit AddMod(Mod* m) { Mods().push_back(m); } };
bool CallFromInit();  // whether modules call during static initialization
inline uint64_t H(uint64_t h, uint64_t v) { h = (h ^ v) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }
}  // namespace vt
#endif
