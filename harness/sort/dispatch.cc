// The public, dynamically dispatched entry points (whatever targets the library
// was compiled for), as one more "target".
#include "hwy/contrib/sort/vqsort.h"
#include "hwy/per_target.h"
#include "sort.h"
namespace vt {
template <class K, class O> struct F {
  static void Sort(void* p, size_t n) { hwy::VQSort(static_cast<K*>(p), n, O()); }
  static void Sorter(void* p, size_t n) { hwy::Sorter s; s(static_cast<K*>(p), n, O()); }
  static void Partial(void* p, size_t n, size_t k) { hwy::VQPartialSort(static_cast<K*>(p), n, k, O()); }
  static void Select(void* p, size_t n, size_t k) { hwy::VQSelect(static_cast<K*>(p), n, k, O()); }
};
template <class K, class O> void Add1(KeyKind kind, bool asc) {
  SortFns().push_back({"dispatch", kind, asc, 64, &F<K, O>::Sort, &F<K, O>::Partial, &F<K, O>::Select});
  SortFns().push_back({"Sorter", kind, asc, 64, &F<K, O>::Sorter, nullptr, nullptr});
}
template <class K> void Add(KeyKind kind) { Add1<K, hwy::SortAscending>(kind, true); Add1<K, hwy::SortDescending>(kind, false); }
static const int kInit = [] {
  Add<uint16_t>(kU16); Add<int16_t>(kI16); Add<uint32_t>(kU32); Add<int32_t>(kI32); Add<uint64_t>(kU64); Add<int64_t>(kI64);
  Add<float>(kF32); Add<hwy::uint128_t>(kU128); Add<hwy::K64V64>(kKV128); Add<hwy::K32V32>(kKV64);
  if (hwy::HaveFloat16()) Add<hwy::float16_t>(kF16);
  if (hwy::HaveFloat64()) Add<double>(kF64);
  return 0;
}();
}  // namespace vt
