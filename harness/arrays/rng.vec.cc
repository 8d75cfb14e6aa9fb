#include "hwy/highway.h"
#include "hwy/contrib/random/random-inl.h"
#include "rng.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
namespace hn = hwy::HWY_NAMESPACE;
using G = hn::VectorXoshiro;
static void* Create(uint64_t s, uint64_t t) { return t == 0 && (s & 1) ? new G(s) : new G(s, t); }
static void Destroy(void* p) { delete static_cast<G*>(p); }
template <class R> static void App(std::vector<uint64_t>& u, const R& r) { for (uint64_t v : r) u.push_back(v); }
template <class R> static void AppF(std::vector<double>& u, const R& r) { for (double v : r) u.push_back(v); }
static void Run(void* p, int op, size_t n, std::vector<uint64_t>& u, std::vector<double>& f) {
  G& g = *static_cast<G*>(p); const hn::ScalableTag<uint64_t> d; HWY_ALIGN uint64_t tmp[HWY_MAX_LANES_D(hn::ScalableTag<uint64_t>)];
  if (op == kNext) { hn::Store(g(), d, tmp); for (size_t i = 0; i < hn::Lanes(d); ++i) u.push_back(tmp[i]); }
  if (op == kBatch) App(u, g(n));
#define EACH(M) switch (n % kNumArraySizes) { case 0: M(0) break; case 1: M(1) break; case 2: M(2) break; case 3: M(3) break; case 4: M(4) break; case 5: M(5) break; case 6: M(6) break; case 7: M(7) break; case 8: M(8) break; default: M(9) }
#define ARR(I) App(u, g.operator()<kArraySizes[I]>());
  if (op == kArray) EACH(ARR)
#if HWY_HAVE_FLOAT64
  const hn::ScalableTag<double> df; HWY_ALIGN double ftmp[HWY_MAX_LANES_D(hn::ScalableTag<double>)];
  if (op == kUniform) { hn::Store(g.Uniform(), df, ftmp); for (size_t i = 0; i < hn::Lanes(d); ++i) f.push_back(ftmp[i]); }
  if (op == kUniformBatch) AppF(f, g.Uniform(n));
#define UNI(I) AppF(f, g.Uniform<kArraySizes[I]>());
  if (op == kUniformArray) EACH(UNI)
#endif
}
static void State(void* p, std::vector<uint64_t>& s) { G& g = *static_cast<G*>(p); const auto& st = g.GetState(); for (size_t j = 0; j < 4; ++j) for (size_t i = 0; i < hn::Lanes(hn::ScalableTag<uint64_t>()); ++i) s.push_back(st[{j}][i]); }
static uint64_t StateSize(void* p) { return static_cast<G*>(p)->StateSize(); }
#define CASES(M) switch (k) { case 0: { using C = hn::CachedXoshiro<1>; M } break; case 1: { using C = hn::CachedXoshiro<2>; M } break; case 2: { using C = hn::CachedXoshiro<8>; M } break; case 3: { using C = hn::CachedXoshiro<64>; M } break; default: { using C = hn::CachedXoshiro<>; M } }
static void* CCreate(int k, uint64_t s, uint64_t t) { CASES(return t == 0 && (s & 1) ? static_cast<void*>(new C(s)) : new C(s, t);) }
static uint64_t CNext(void* p, int k) { CASES(return (*static_cast<C*>(p))();) }
static void CDestroy(void* p, int k) { CASES(delete static_cast<C*>(p);) }
static void Scalar(uint64_t seed, uint64_t thread, int longs, size_t n, std::vector<uint64_t>& u, std::vector<double>& f, std::vector<uint64_t>& s) {
  hn::internal::Xoshiro x = thread == 0 && (seed & 1) ? hn::internal::Xoshiro(seed) : hn::internal::Xoshiro(seed, thread);
  for (int i = 0; i < longs; ++i) x.LongJump();
  for (size_t i = 0; i < n; ++i) u.push_back(x());
#if HWY_HAVE_FLOAT64
  for (size_t i = 0; i < n; ++i) f.push_back(x.Uniform());
#endif
  for (uint64_t v : x.GetState()) s.push_back(v);
}
static const int kInit = [] { RngApis().push_back({hwy::TargetName(HWY_TARGET), hn::Lanes(hn::ScalableTag<uint64_t>()), bool(HWY_HAVE_FLOAT64), Create, Destroy, Run, State, StateSize, CCreate, CNext, CDestroy, Scalar}); return 0; }();
}  // namespace HWY_NAMESPACE
}  // namespace vt
HWY_AFTER_NAMESPACE();
