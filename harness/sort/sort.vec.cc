// One Highway target: exports pointers to the static sort/partial/select.
// SORT_PART picks key types, SORT_OP: 0 sort, 1 partial sort + select.
#include "hwy/highway.h"
#include "hwy/contrib/sort/vqsort-inl.h"
#include "sort.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
template <class K, class O> struct F {
  static void Sort(void* p, size_t n) { hwy::HWY_NAMESPACE::VQSortStatic(static_cast<K*>(p), n, O()); }
  static void Partial(void* p, size_t n, size_t k) { hwy::HWY_NAMESPACE::VQPartialSortStatic(static_cast<K*>(p), n, k, O()); }
  static void Select(void* p, size_t n, size_t k) { hwy::HWY_NAMESPACE::VQSelectStatic(static_cast<K*>(p), n, k, O()); }
};
template <class K> void Add(KeyKind kind) {
  const size_t L = hwy::HWY_NAMESPACE::Lanes(hwy::HWY_NAMESPACE::ScalableTag<uint8_t>());
  using A = F<K, hwy::SortAscending>;
  using D = F<K, hwy::SortDescending>;
#if SORT_OP == 0
  SortFns().push_back({hwy::TargetName(HWY_TARGET), kind, true, L, &A::Sort, nullptr, nullptr});
  SortFns().push_back({hwy::TargetName(HWY_TARGET), kind, false, L, &D::Sort, nullptr, nullptr});
#else
  SortFns().push_back({hwy::TargetName(HWY_TARGET), kind, true, L, nullptr, &A::Partial, &A::Select});
  SortFns().push_back({hwy::TargetName(HWY_TARGET), kind, false, L, nullptr, &D::Partial, &D::Select});
#endif
}
static const int kInit = [] {
#if SORT_PART == 0
  Add<uint16_t>(kU16); Add<int16_t>(kI16); Add<float>(kF32);
#if HWY_HAVE_FLOAT16
  Add<hwy::float16_t>(kF16);
#endif
#elif SORT_PART == 1
  Add<uint32_t>(kU32); Add<int32_t>(kI32); Add<uint64_t>(kU64); Add<int64_t>(kI64);
#else
#if HWY_HAVE_FLOAT64
  Add<double>(kF64);
#endif
  Add<hwy::K32V32>(kKV64);
#if HWY_TARGET != HWY_SCALAR
  Add<hwy::uint128_t>(kU128); Add<hwy::K64V64>(kKV128);
#endif
#endif
  return 0;
}();
}  // namespace HWY_NAMESPACE
}  // namespace vt
HWY_AFTER_NAMESPACE();
