#include "ref.h"
#include "arith.list.h"
namespace vt {
template <typename T> void fma_alt(R& r, T a, T b, T c) {  // a*b+c fused or not
  if constexpr (IsF<T>()) r.alt<T>(std::fma(a, b, c), a * b + c); else r.eq<T>(fm(a, b, c));
}
template <typename T> void minmax(R& r, T a, T b, bool mx) {
  if (nan_(a) || nan_(b)) { r.any<T>(); return; }
  if (a == b) { r.alt<T>(a, b); return; }
  r.eq<T>((a < b) != mx ? a : b);
}
template <typename T> T satadd(T a, T b) { return Sat<T>(i128(a) + i128(b)); }
template <typename T> T satsub(T a, T b) { return Sat<T>(i128(a) - i128(b)); }
template <typename T> T absv(T a) { if constexpr (IsF<T>()) return std::fabs(a); else return a < 0 ? ng(a) : a; }
ROPL(Add, r.eq<T>(ad(a, b));)
ROPL(Sub, r.eq<T>(sb(a, b));)
ROPL(Mul, r.eq<T>(ml(a, b));)
ROP(Operators, for (int k = 0; k < 6; ++k) { if (k == 3 && !IsF<T>()) continue; for (size_t i = 0; i < N; ++i) { T a = x.a(i), b = x.b(i);
  if constexpr (IsF<T>()) { if (k == 3) { r.eq<T>(a / b); continue; } }
  r.eq<T>(k == 0 || k == 4 ? ad(a, b) : k == 2 ? ml(a, b) : sb(a, b)); } })
ROPL(Min, minmax(r, a, b, false);)
ROPL(Max, minmax(r, a, b, true);)
template <typename T> void magn(R& r, T a, T b, bool mx) {
  if (nan_(a) || nan_(b)) { r.any<T>(); return; }
  bool lt;
  if constexpr (IsF<T>()) lt = std::fabs(a) < std::fabs(b) || (std::fabs(a) == std::fabs(b) && a < b);
  else { i128 A = a, B = b; A = A < 0 ? -A : A; B = B < 0 ? -B : B; lt = A < B || (A == B && a < b); }
  if (a == b) { r.alt<T>(a, b); return; }  // +-0
  r.eq<T>(lt != mx ? a : b);
}
ROPL(MinMagnitude, magn(r, a, b, false);)
ROPL(MaxMagnitude, magn(r, a, b, true);)
ROPL(AbsDiff, if constexpr (IsF<T>()) r.eq<T>(std::fabs(a - b)); else r.eq<T>(a > b ? sb(a, b) : sb(b, a));)
ROPL(Clamp, if (nan_(a) || nan_(b) || nan_(c) || b > c) r.any<T>(); else { T v = a < b ? b : a; v = v > c ? c : v;
  if constexpr (IsF<T>()) { if (v == 0) { r.alt<T>(T(0), -T(0)); continue; } } r.eq<T>(v); })
ROPL(AddSub, r.eq<T>(i & 1 ? ad(a, b) : sb(a, b));)
ROPL(Neg, r.eq<T>(ng(a));)
ROPL(Abs, r.eq<T>(absv(a));)
ROPL(SaturatedNeg, r.eq<T>(Sat<T>(-i128(a)));)
ROPL(SaturatedAbs, r.eq<T>(Sat<T>(a < 0 ? -i128(a) : i128(a)));)
ROPL(SaturatedAdd, r.eq<T>(satadd(a, b));)
ROPL(SaturatedSub, r.eq<T>(satsub(a, b));)
ROPL(AverageRound, r.eq<T>(T((i128(a) + i128(b) + 1) >> 1));)
template <typename T> T mulhi(T a, T b) {
  if constexpr (IsS<T>()) return T((i128(a) * i128(b)) >> (8 * sizeof(T)));
  else return T((u128(a) * u128(b)) >> (8 * sizeof(T)));
}
ROPL(MulHigh, r.eq<T>(mulhi(a, b));)
static void mulfix(R& r, i16 a, i16 b) { if (a == -32768 && b == -32768) r.any<i16>(); else r.eq<i16>(i16((2 * i32(a) * b + 0x8000) >> 16)); }
ROPL(MulFixedPoint15, mulfix(r, a, b);)
template <typename T> void mulwide(In<T> x, size_t odd) {
  R& r = x.r;
  for (size_t i = 0; i < std::max<size_t>(1, x.N / 2); ++i) {
    const T a = x.a(2 * i + odd), b = x.b(2 * i + odd);
    if constexpr (sizeof(T) == 8) { r.eq<T>(ml(a, b)); r.eq<T>(mulhi(a, b)); }
    else { using W = Wide<T>; r.eq<W>(W(i64(a) * i64(b))); }
  }
}
ROP(MulEven, mulwide(x, 0);)
ROP(MulOdd, mulwide(x, 1);)
template <typename T> void dv(R& r, T a, T b) {
  if constexpr (IsF<T>()) r.eq<T>(a / b);
  else if (b == 0 || (IsS<T>() && a == LMin<T>() && b == T(-1))) r.any<T>();
  else r.eq<T>(T(a / b));
}
template <typename T> void md(R& r, T a, T b) {
  if (b == 0 || (IsS<T>() && a == LMin<T>() && b == T(-1))) r.any<T>(); else r.eq<T>(T(a % b));
}
ROPL(Div, dv(r, a, b);)
ROPL(Mod, md(r, a, b);)
ROPL(MulAdd, fma_alt(r, a, b, c);)
ROPL(NegMulAdd, fma_alt(r, ng(a), b, c);)
ROPL(MulSub, fma_alt(r, a, b, ng(c));)
ROPL(NegMulSub, fma_alt(r, ng(a), b, ng(c));)
ROPL(MulAddSub, fma_alt(r, a, b, i & 1 ? c : ng(c));)
ROPL(MulSubAdd, fma_alt(r, a, b, i & 1 ? ng(c) : c);)
ROPL(Sqrt, r.eq<T>(std::sqrt(a));)
template <typename T> void rel(R& r, T exact, double tol) {
  T lo = T(exact - std::fabs(exact) * tol), hi = T(exact + std::fabs(exact) * tol);
  r.range<T>(std::min(lo, hi), std::max(lo, hi));
}
template <typename T> void rcp(R& r, T a) {
  const T big = std::ldexp(T(1), std::numeric_limits<T>::max_exponent - 4);
  if (nan_(a)) r.any<T>();
  else if (std::fabs(a) > big || std::fabs(a) < 1 / big) r.any<T>();
  else rel<T>(r, T(1) / a, 1.0 / 2048);
}
template <typename T> void rsq(R& r, T a) {
  const T big = std::ldexp(T(1), std::numeric_limits<T>::max_exponent - 4);
  if (!(a > 0) || a > big || a < 1 / big) r.any<T>();
  else rel<T>(r, T(1) / std::sqrt(a), 0.01);
}
ROPL(ApproximateReciprocal, rcp(r, a);)
ROPL(ApproximateReciprocalSqrt, rsq(r, a);)
ROPL(GetExponent, if (std::isnormal(a)) r.eq<T>(T(std::ilogb(a))); else r.any<T>();)
ROPL(GetBiasedExponent, const int mb = sizeof(T) == 4 ? 23 : 52; r.eq<TU>((Bits(a) >> mb) & (sizeof(T) == 4 ? 0xFF : 0x7FF));)
// The sign of a zero result of rounding is not documented.
template <typename T> void rnd(R& r, T v) { if (v == 0) r.alt<T>(T(0), -T(0)); else r.eq<T>(v); }
ROPL(Round, rnd(r, std::nearbyint(a));)
ROPL(Trunc, rnd(r, std::trunc(a));)
ROPL(Ceil, rnd(r, std::ceil(a));)
ROPL(Floor, rnd(r, std::floor(a));)
ROPL(MulRound, rnd(r, std::nearbyint(a * b));)
ROPL(MulByPow2, i64 ex = std::min<i64>(std::max<i64>(x.template P<TI>(1)[i], -100000), 100000); r.eq<T>(std::ldexp(a, int(ex)));)
ROPL(MulByFloorPow2,
  if (nan_(b)) r.eq<T>(b);
  else if (std::isinf(b)) { if (nan_(a)) r.any<T>(); else r.eq<T>(b < 0 ? a * T(0) : a * b); }
  else { const T f = std::floor(b); r.eq<T>(std::ldexp(a, int(std::min<T>(std::max<T>(f, -100000), 100000)))); })
ROPL(ComplexConj, r.eq<T>(i & 1 ? ng(a) : a);)
// (ar + i ai) * (br + s*i bi) + (cr + i ci)
template <typename T> void cplx(R& r, In<T> x, int s, bool addc, int mode) {
  for (size_t i = 0; i < x.N; ++i) {
    if (mode && !x.m(i)) { r.bits<T>(mode == 1 ? T(0) : x.e(i)); continue; }
    const size_t j = i & ~size_t(1);
    const T ar = x.a(j), ai = x.a(j + 1), br = x.b(j), bi = x.b(j + 1), cc = addc ? x.c(i) : T(0);
    const T p0 = i & 1 ? ar : ar, q0 = i & 1 ? bi : br, p1 = i & 1 ? ai : ai, q1 = i & 1 ? br : bi;
    // re = ar*br - s*ai*bi ; im = s*ar*bi + ai*br
    const bool neg0 = (i & 1) && s < 0, neg1 = !(i & 1) && s > 0;
    if constexpr (IsF<T>()) {
      const long double t0 = (long double)p0 * q0 * (neg0 ? -1 : 1), t1 = (long double)p1 * q1 * (neg1 ? -1 : 1);
      const long double sum = t0 + t1 + cc, mag = fabsl(t0) + fabsl(t1) + fabsl(cc);
      const long double tol = mag * std::numeric_limits<T>::epsilon() * 3 + std::numeric_limits<T>::denorm_min() * 4;
      r.range<T>(T(sum - tol), T(sum + tol));
    } else {
      T v = ad(neg0 ? ng(ml(p0, q0)) : ml(p0, q0), neg1 ? ng(ml(p1, q1)) : ml(p1, q1));
      r.eq<T>(ad(v, cc));
    }
  }
}
ROP(MulComplex, cplx(r, x, 1, false, 0);)
ROP(MulComplexConj, cplx(r, x, -1, false, 0);)
ROP(MulComplexAdd, cplx(r, x, 1, true, 0);)
ROP(MulComplexConjAdd, cplx(r, x, -1, true, 0);)
ROP(MaskedMulComplexConjAdd, cplx(r, x, -1, true, 1);)
ROP(MaskedMulComplexConj, cplx(r, x, -1, false, 1);)
ROP(MaskedMulComplexOr, cplx(r, x, 1, false, 2);)
#define MOR(NAME, ...) ROPL(NAME, if (!m) r.bits<T>(e); else { __VA_ARGS__ })
#define MZ(NAME, ...) ROPL(NAME, if (!m) r.bits<T>(T(0)); else { __VA_ARGS__ })
MOR(MaskedMinOr, minmax(r, a, b, false);)
MOR(MaskedMaxOr, minmax(r, a, b, true);)
MOR(MaskedAddOr, r.eq<T>(ad(a, b));)
MOR(MaskedSubOr, r.eq<T>(sb(a, b));)
MOR(MaskedMulOr, r.eq<T>(ml(a, b));)
MOR(MaskedDivOr, dv(r, a, b);)
MOR(MaskedModOr, md(r, a, b);)
MOR(MaskedSatAddOr, r.eq<T>(satadd(a, b));)
MOR(MaskedSatSubOr, r.eq<T>(satsub(a, b));)
MOR(MaskedMulAddOr, fma_alt(r, a, b, c);)
MOR(MaskedAbsOr, r.eq<T>(absv(a));)
MZ(MaskedAbs, r.eq<T>(absv(a));)
MOR(MaskedSqrtOr, r.eq<T>(std::sqrt(a));)
MZ(MaskedSqrt, r.eq<T>(std::sqrt(a));)
MZ(MaskedMax, minmax(r, a, b, true);)
MZ(MaskedAdd, r.eq<T>(ad(a, b));)
MZ(MaskedSub, r.eq<T>(sb(a, b));)
MZ(MaskedMul, r.eq<T>(ml(a, b));)
MZ(MaskedDiv, dv(r, a, b);)
MZ(MaskedSaturatedAdd, r.eq<T>(satadd(a, b));)
MZ(MaskedSaturatedSub, r.eq<T>(satsub(a, b));)
MZ(MaskedMulFixedPoint15, mulfix(r, a, b);)
MZ(MaskedMulAdd, fma_alt(r, a, b, c);)
MZ(MaskedNegMulAdd, fma_alt(r, ng(a), b, c);)
MZ(MaskedApproximateReciprocal, rcp(r, a);)
MZ(MaskedApproximateReciprocalSqrt, rsq(r, a);)
ROP(AddConst, for (size_t i = 0; i < N; ++i) r.eq<T>(ad(x.a(i), T(1))); for (size_t i = 0; i < N; ++i) r.eq<T>(sb(T(0), x.a(i)));
   for (int k : {2, 4, 3}) for (size_t i = 0; i < N; ++i) r.eq<T>(ml(x.a(i), T(k)));)
struct RegisterRefs { RegisterRefs() { GROUP_LIST(REFX) } } g_refs;
}  // namespace vt
