#ifndef VERIF_MATH_H_
#define VERIF_MATH_H_
#include <stddef.h>
#include <vector>
namespace vt {
enum MathFn { kAcos, kAcosh, kAsin, kAsinh, kAtan, kAtanh, kCos, kExp, kExp2, kExpm1, kLog, kLog10, kLog1p, kLog2, kSin, kSinh, kTanh, kSinOfSinCos, kCosOfSinCos, kAtan2, kHypot, kMathFns };
struct MathApi {
  int fn; const char* target; bool f64; size_t lanes; bool capped;
  // |call|: via the noinline Call* wrapper. |n| is a multiple of |lanes|.
  void (*run)(const void* a, const void* b, void* out, size_t n, bool call);
};
std::vector<MathApi>& MathApis();
}  // namespace vt
#endif
