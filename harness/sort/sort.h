#ifndef VERIF_SORT_H_
#define VERIF_SORT_H_
#include <stddef.h>
#include <stdint.h>
#include <vector>
namespace vt {
enum KeyKind { kU16, kI16, kU32, kI32, kU64, kI64, kF16, kF32, kF64, kU128, kKV64, kKV128 };
struct SortFn {
  const char* target; KeyKind kind; bool ascending;
  size_t lanes;  // u8 lanes of the widest vector, for choosing sizes
  void (*sort)(void*, size_t);
  void (*partial)(void*, size_t, size_t);
  void (*select)(void*, size_t, size_t);
};
std::vector<SortFn>& SortFns();
}  // namespace vt
#endif
