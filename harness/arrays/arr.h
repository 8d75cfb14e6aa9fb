// Array kernels compiled for one target each, called through plain pointers.
#ifndef VERIF_ARR_H_
#define VERIF_ARR_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <vector>
namespace vt {
enum Ty { U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, F16, BF16 };
inline const char* TyName(int t) { static const char* n[] = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "f16", "bf16"}; return n[t]; }
struct Call {
  void* p[4] = {nullptr, nullptr, nullptr, nullptr};
  size_t n = 0, m = 0;      // element counts
  uint64_t bits[2] = {0, 0};  // scalar arguments (raw bits)
  uint64_t ret = 0;         // scalar result
  void* user = nullptr;
};
struct ArrFn { const char* op; const char* target; int ty; size_t lanes; bool capped; void (*fn)(Call&); int ty2 = 0; int ty3 = 0; int arg = 0; };
std::vector<ArrFn>& ArrFns();
}  // namespace vt
#endif
