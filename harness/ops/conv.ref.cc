#include "ref.h"
#include "conv.list.h"
namespace vt {
// float16/bfloat16 bits -> double (exact).
inline double H2D(u16 v) { const int e = (v >> 10) & 31; const double m = v & 0x3FF; const double d = e == 31 ? ((v & 0x3FF) ? NAN : INFINITY) : e ? ldexp(1024 + m, e - 25) : ldexp(m, -24); return (v & 0x8000) ? -d : d; }
inline double B2D(u16 v) { return FromBits<float>(u32(v) << 16); }
// Round |d| to nearest even with p mantissa bits, min exponent emin; returns bits.
inline u16 D2H(double d) {
  const u16 s = std::signbit(d) ? 0x8000 : 0; d = fabs(d);
  if (d != d) return s | 0x7E00;
  if (d >= 65520.0) return s | 0x7C00;
  if (d < ldexp(1, -14)) return u16(s | u16(nearbyint(ldexp(d, 24))));
  int e; frexp(d, &e); e -= 1;
  double m = nearbyint(ldexp(d, 10 - e));
  if (m == 2048) { m = 1024; ++e; }
  return u16(s | ((e + 15) << 10) | (u16(m) & 0x3FF));
}
inline u16 F2B_trunc(float f) { return u16(Bits(f) >> 16); }
inline u16 F2B_rne(float f) { const u32 b = Bits(f); if (f != f) return u16((b >> 16) | 0x40); return u16((b + 0x7FFF + ((b >> 16) & 1)) >> 16); }
template <typename F> F val(F f) { return f; }
inline double val(RF16 f) { return H2D(f.b); }
inline double val(RBF16 f) { return B2D(f.b); }
// Float -> integer, truncating (x already rounded), saturating. NaN: unspecified.
template <typename TO> void f2i(R& r, double x, bool in_range) {
  if (x != x) { r.any<TO>(); return; }
  x = trunc(x);
  const double hi = ldexp(1.0, int(sizeof(TO)) * 8 - (IsS<TO>() ? 1 : 0)), lo = IsS<TO>() ? -hi : 0;
  if (x >= hi) { if (in_range) r.any<TO>(); else r.eq<TO>(LMax<TO>()); }
  else if (x < lo) { if (in_range) r.any<TO>(); else r.eq<TO>(LMin<TO>()); }
  else r.eq<TO>(TO(x));
}
template <typename TO, typename FROM> void cv(R& r, FROM f, bool in_range = false) {
  // Inf/NaN in float16 are documented as implementation-defined.
  if constexpr (std::is_same<FROM, RF16>::value) { if ((f.b & 0x7C00) == 0x7C00) { r.any<TO>(); return; } }
  if constexpr (std::is_same<TO, RF16>::value) { if (f - f != 0) { r.any<TO>(); return; } }
  if constexpr (std::is_same<TO, RBF16>::value) {
    // AVX3_ZEN4/SPR use vcvtneps2bf16, which flushes subnormals to zero.
    if (f != 0 && fabsf(f) < FLT_MIN) r.range<RBF16>(RBF16{u16(std::signbit(f) ? F2B_rne(f) : 0x8000)}, RBF16{u16(std::signbit(f) ? 0x0000 : F2B_rne(f))});
    else if (f != f) r.alt<RBF16>(RBF16{F2B_trunc(f)}, RBF16{0x7FC0}); else r.alt<RBF16>(RBF16{F2B_trunc(f)}, RBF16{F2B_rne(f)});
  } else if constexpr (std::is_same<TO, RF16>::value) {
    r.alt<RF16>(RF16{D2H(double(f))}, RF16{D2H(double(float(f)))});
  } else {
    const auto v = val(f);
    using V = decltype(val(f));
    if constexpr (IsF<TO>()) {
      if constexpr (IsF<V>() && sizeof(TO) < sizeof(V)) { // f64 -> f32: overflow gives inf or max
        const TO t = TO(v);
        if (std::isinf(t)) r.alt<TO>(t, t > 0 ? LMax<TO>() : LMin<TO>()); else r.eq<TO>(t);
      } else r.eq<TO>(TO(v));
    } else if constexpr (IsF<V>()) f2i<TO>(r, double(v), in_range);
    else r.eq<TO>(Sat<TO>(i128(v)));
  }
}
#define PROM(TO) ROPL(Promote_##TO, cv<TO>(r, a);) \
  ROP(PromoteHalf_##TO, for (int w = 0; w < 4; ++w) for (size_t i = 0; i < N / 2; ++i) cv<TO>(r, x.a(w == 0 ? i : w == 1 ? N / 2 + i : w == 2 ? 2 * i : 2 * i + 1));)
PROM(u16) PROM(i16) PROM(u32) PROM(i32) PROM(u64) PROM(i64) PROM(f32) PROM(f64)
#define PROMR(TO) ROP(PromoteInRange_##TO, for (int w = 0; w < 5; ++w) for (size_t i = 0; i < N / 2; ++i) cv<TO>(r, x.a(w <= 1 ? i : w == 2 ? N / 2 + i : w == 3 ? 2 * i : 2 * i + 1), true);)
PROMR(u64) PROMR(i64)
#define DEM(TO) ROPL(Demote_##TO, cv<TO>(r, a);)
DEM(u8) DEM(i8) DEM(u16) DEM(i16) DEM(u32) DEM(i32) DEM(f32) DEM(f16) DEM(bf16)
ROPL(DemoteInRange_i32, cv<i32>(r, a, true);)
ROPL(DemoteInRange_u32, cv<u32>(r, a, true);)
ROPL(DemoteToNearestInt, f2i<i32>(r, nearbyint(a), false);)
#define TRUNC(TO) ROPL(Truncate_##TO, r.eq<TO>(TO(a));)
TRUNC(u8) TRUNC(u16) TRUNC(u32)
ROPL(U8FromU32, r.eq<u8>(u8(a));)
#define CONV(TO) ROP(Convert_##TO, for (size_t i = 0; i < N; ++i) cv<TO>(r, x.a(i)); for (size_t i = 0; i < N; ++i) if (x.m(i)) cv<TO>(r, x.a(i)); else r.eq<TO>(TO(0));)
CONV(f32) CONV(f64) CONV(i32) CONV(u32) CONV(i64) CONV(u64)
#define CONVR(TO) ROPL(ConvertInRange_##TO, cv<TO>(r, a, true);)
CONVR(i32) CONVR(u32) CONVR(i64) CONVR(u64)
ROPL(NearestInt, f2i<TI>(r, nearbyint(double(a)), false);)
ROPL(CeilInt, f2i<TI>(r, ceil(double(a)), false);)
ROPL(FloorInt, f2i<TI>(r, floor(double(a)), false);)
template <typename T> T kc(int k, size_t i) { static const int s4[4] = {0, 5, 11, 29}; return T(kConst[(k + s4[i % (16 / sizeof(T))]) % kNumConst]); }
#define FORC(EXPR) for (int k = 0; k < kNumConst; ++k) for (int w = 0; w < 2; ++w) { EXPR }
#define KLANES(STMT) for (size_t i = 0; i < N; ++i) { const T a = w ? kc<T>(k, i) : T(kConst[k]); STMT; }
#define KTWO(NAME, TO) ROP(NAME##_##TO, FORC(KLANES(cv<TO>(r, a)) KLANES(cv<TO>(r, a, true))))
KTWO(ConstConvert, i32) KTWO(ConstConvert, u32) KTWO(ConstConvert, i64) KTWO(ConstConvert, u64) KTWO(ConstPromote, i64) KTWO(ConstPromote, u64) KTWO(ConstDemote, i32) KTWO(ConstDemote, u32)
ROP(ConstNearest, FORC(KLANES(f2i<TI>(r, nearbyint(double(a)), false))))
ROP(ConstDemoteNearest, FORC(KLANES(f2i<i32>(r, nearbyint(a), false))))
ROP(ConstRound, FORC(KLANES(r.zeq<T>(std::trunc(a)))))
#define DEM2(TO) ROP(Demote2_##TO, std::vector<UOf<TO>> s; for (size_t i = 0; i < 2 * N; ++i) { const T v = i < N ? x.a(i) : x.b(i - N); const TO t = Sat<TO>(i128(v)); r.eq<TO>(t); s.push_back(UOf<TO>(t)); } std::sort(s.begin(), s.end()); for (auto v : s) r.eq<UOf<TO>>(v);)
DEM2(u8) DEM2(i8) DEM2(u16) DEM2(i16) DEM2(u32) DEM2(i32)
ROP(Demote2_bf16, std::vector<u16> s; for (size_t i = 0; i < 2 * N; ++i) { const T v = i < N ? x.a(i) : x.b(i - N); cv<RBF16>(r, v); s.push_back(v != v || fabsf(v) < FLT_MIN ? u16(0) : F2B_trunc(v)); } std::sort(s.begin(), s.end()); for (auto v : s) r.eq<u16>(v);)
#define TR2(TO) ROP(Truncate2_##TO, for (size_t i = 0; i < 2 * N; ++i) r.eq<TO>(TO(i < N ? x.a(i) : x.b(i - N)));)
TR2(u8) TR2(u16) TR2(u32)
struct RegisterRefs { RegisterRefs() { GROUP_LIST(REFX) } } g_refs;
}  // namespace vt
