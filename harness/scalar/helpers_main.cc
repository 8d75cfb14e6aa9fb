// P20: scalar helpers of hwy/base.h against wider built-in arithmetic.
#include "../common/report.h"
#include "../common/watch.h"
#include "../common/guard.h"
#include "hwy/base.h"
#include <cmath>
#include <limits>
#include <type_traits>
#include <sstream>
namespace vt {
typedef unsigned __int128 u128; typedef __int128 i128;  // the oracle; the code under test may be built without them
static uint64_t Draw(Rng& g) {  // boundary-heavy
  const uint64_t k = g.below(8); uint64_t v;
  if (k == 0) v = g.below(200);
  else if (k == 1) v = ~g.below(200);
  else if (k == 2) v = (1ull << g.below(64)) + g.below(5) - 2;
  else if (k == 3) v = ((1ull << g.below(64)) | (1ull << g.below(64))) + g.below(3) - 1;
  else if (k == 4) v = ~0ull >> g.below(64);
  else if (k == 5) v = (g() & 0xFFFFFFFF) | (g.below(2) ? 0xFFFFFFFF00000000ull : 0);
  else v = g() >> g.below(64);
  return v;
}
static uint32_t Draw32(Rng& g) { const uint64_t v = Draw(g); return uint32_t(g.below(2) ? v : v >> 32); }
#define BAD(key, ...) Rep().Viol(key, Fmt(__VA_ARGS__))
typedef unsigned long long ull;
// ------------------------------------------------------------ divisors
static inline void Div32One(const hwy::Divisor& dv, uint32_t d, uint32_t n) { const uint32_t q = dv.Divide(n), r = dv.Remainder(n); if (HWY_UNLIKELY(q != n / d || r != n % d)) BAD("Divisor", "%u / %u = %u rem %u, want %u rem %u", n, d, q, r, n / d, n % d); }
static void Div32(Rng& g, uint32_t d, int random) {
  const hwy::Divisor dv(d); if (HWY_UNLIKELY(dv.GetDivisor() != d)) BAD("Divisor/get", "%u", d);
  const uint32_t qmax = 0xFFFFFFFFu / d, edge = qmax * d; for (uint32_t n : {0u, 1u, d - 1, d, d + 1, edge - 1, edge, 0xFFFFFFFFu, 0x7FFFFFFFu, 0x80000000u}) Div32One(dv, d, n);
  for (int i = 0; i < random; ++i) { const uint32_t k = uint32_t(g() % (uint64_t(qmax) + 1)); Div32One(dv, d, k * d); Div32One(dv, d, k * d - 1); Div32One(dv, d, Draw32(g)); }
  Rep().evaluations.fetch_add(10 + 3 * uint64_t(random), std::memory_order_relaxed);
}
static void Div32AllN(uint32_t d, uint32_t first, uint32_t step) { const hwy::Divisor dv(d); uint64_t n = first, c = 0; uint32_t q = uint32_t(n / d), r = uint32_t(n % d); const uint32_t sq = step / d, sr = step % d; for (; n <= 0xFFFFFFFFull; n += step, ++c) { if (HWY_UNLIKELY(dv.Divide(uint32_t(n)) != q || dv.Remainder(uint32_t(n)) != r)) { BAD("Divisor", "%llu / %u = %u rem %u, want %u rem %u", ull(n), d, dv.Divide(uint32_t(n)), dv.Remainder(uint32_t(n)), q, r); break; } q += sq; const uint64_t s = uint64_t(r) + sr; if (s >= d) { r = uint32_t(s - d); ++q; } else r = uint32_t(s); } Rep().Eval(c); Rep().Count("numerators_of_selected_divisors", c); }
static inline void Div64One(const hwy::Divisor64& dv, uint64_t d, uint64_t n) { const uint64_t q = dv.Divide(n), r = dv.Remainder(n); if (HWY_UNLIKELY(q != n / d || r != n % d)) BAD("Divisor64", "%llu / %llu = %llu rem %llu, want %llu rem %llu", ull(n), ull(d), ull(q), ull(r), ull(n / d), ull(n % d)); }
static void Div64(Rng& g, uint64_t d) {
  const hwy::Divisor64 dv(d); if (HWY_UNLIKELY(dv.GetDivisor() != d)) BAD("Divisor64/get", "%llu", ull(d));
  const uint64_t qmax = ~0ull / d, edge = qmax * d; for (uint64_t n : {uint64_t(0), uint64_t(1), d - 1, d, d + 1, edge - 1, edge, ~uint64_t(0), ~uint64_t(0) >> 1, uint64_t(1) << 63}) Div64One(dv, d, n);
  for (int i = 0; i < 6; ++i) { const uint64_t k = Draw(g), m = qmax == ~0ull ? k : k % (qmax + 1); Div64One(dv, d, m * d); Div64One(dv, d, m * d - 1); Div64One(dv, d, Draw(g)); }
  Rep().evaluations.fetch_add(28, std::memory_order_relaxed);
}
// ------------------------------------------------------------ products, bits, rounding
static size_t SlowPop(uint64_t v) { size_t n = 0; for (; v; v >>= 1) n += v & 1; return n; }
static size_t SlowLog(uint64_t v) { size_t n = 0; while (v >>= 1) ++n; return n; }
template <class T> static void BitsOf(uint64_t raw, Rng& g) {
  const T x = T(raw); using TU = typename std::make_unsigned<T>::type; const TU u = TU(raw); const int bits = int(sizeof(T) * 8); const char* sg = std::is_signed<T>::value ? "i" : "u";
  if (HWY_UNLIKELY(hwy::PopCount(x) != SlowPop(u))) BAD(Fmt("PopCount/%s%d", sg, bits), "0x%llx: %zu", ull(u), hwy::PopCount(x));
  const int s = int(g.below(uint64_t(bits))); const i128 wide = std::is_signed<T>::value ? i128(int64_t(x)) : i128(uint64_t(u)); i128 p = i128(1) << s, q = wide / p; if (wide % p < 0) --q;  // floor
  if (HWY_UNLIKELY(i128(hwy::ScalarShr(x, s)) != q)) BAD(Fmt("ScalarShr/%s%d", sg, bits), "%lld by %d", (long long)x, s);
  const T abs = hwy::ScalarAbs(x); const T want = wide < 0 ? T(TU(0) - u) : x; if (HWY_UNLIKELY(abs != want)) BAD(Fmt("ScalarAbs/%s%d", sg, bits), "%lld: %lld", (long long)x, (long long)abs);
  if (HWY_UNLIKELY(hwy::ScalarSignBit(x) != bool(u >> (bits - 1)) || !hwy::ScalarIsFinite(x))) BAD(Fmt("ScalarSignBit/%s%d", sg, bits), "%lld", (long long)x);
  const uint64_t inc = Draw(g); if (HWY_UNLIKELY(TU(hwy::AddWithWraparound(x, inc)) != TU(u + inc) || TU(hwy::AddWithWraparound(x, int32_t(inc))) != TU(u + TU(int64_t(int32_t(inc)))))) BAD(Fmt("AddWithWraparound/%s%d", sg, bits), "%lld + %llu", (long long)x, ull(inc));
  if (x > 0) { const size_t f = SlowLog(u), c = u == 1 ? 0 : SlowLog(TU(u - 1)) + 1; if (HWY_UNLIKELY(hwy::FloorLog2(x) != f || hwy::CeilLog2(x) != c)) BAD(Fmt("Log2/%s%d", sg, bits), "%llu: %zu %zu", ull(u), hwy::FloorLog2(x), hwy::CeilLog2(x)); }
}
static void Misc(uint64_t a, uint64_t b, Rng& g) {
  uint64_t hi; const uint64_t lo = hwy::Mul128(a, b, &hi); const u128 p = u128(a) * b; if (HWY_UNLIKELY(lo != uint64_t(p) || hi != uint64_t(p >> 64))) BAD("Mul128/u64", "0x%llx * 0x%llx = 0x%llx%016llx", ull(a), ull(b), ull(hi), ull(lo));
  int64_t shi; const int64_t slo = hwy::Mul128(int64_t(a), int64_t(b), &shi); const i128 sp = i128(int64_t(a)) * int64_t(b); if (HWY_UNLIKELY(slo != int64_t(sp) || shi != int64_t(sp >> 64))) BAD("Mul128/i64", "%lld * %lld = 0x%llx%016llx", (long long)a, (long long)b, ull(shi), ull(slo));
  if (a) { size_t z = 0; while (!(a >> z & 1)) ++z; if (HWY_UNLIKELY(hwy::Num0BitsBelowLS1Bit_Nonzero64(a) != z || hwy::Num0BitsAboveMS1Bit_Nonzero64(a) != 63 - SlowLog(a))) BAD("Num0Bits/64", "0x%llx", ull(a)); }
  const uint32_t w = uint32_t(a >> g.below(33)); if (w) { size_t z = 0; while (!(w >> z & 1)) ++z; if (HWY_UNLIKELY(hwy::Num0BitsBelowLS1Bit_Nonzero32(w) != z || hwy::Num0BitsAboveMS1Bit_Nonzero32(w) != 31 - SlowLog(w))) BAD("Num0Bits/32", "0x%x", w); }
  BitsOf<uint8_t>(a, g); BitsOf<int8_t>(a, g); BitsOf<uint16_t>(a, g); BitsOf<int16_t>(a, g); BitsOf<uint32_t>(a, g); BitsOf<int32_t>(a, g); BitsOf<uint64_t>(a, g); BitsOf<int64_t>(a, g);
  if (b) {
    const u128 up = (u128(a) + b - 1) / b; if (u128(a) + b - 1 <= ~0ull && HWY_UNLIKELY(hwy::DivCeil(a, b) != uint64_t(up))) BAD("DivCeil", "%llu, %llu", ull(a), ull(b));
    if (u128(a) + b - 1 <= ~0ull && HWY_UNLIKELY(hwy::RoundUpTo(a, b) != uint64_t(up * b))) BAD("RoundUpTo", "%llu, %llu", ull(a), ull(b));
    if (HWY_UNLIKELY(hwy::RoundDownTo(a, b) != a / b * b)) BAD("RoundDownTo", "%llu, %llu", ull(a), ull(b));
    const uint32_t c = uint32_t(a), d = uint32_t(b); if (d && uint64_t(c) + d - 1 <= 0xFFFFFFFFu && HWY_UNLIKELY(hwy::DivCeil(c, d) != (uint64_t(c) + d - 1) / d)) BAD("DivCeil/u32", "%u, %u", c, d);
  }
  auto ord = [](const u128& x, const u128& y) { return x < y ? -1 : x > y ? 1 : 0; };
  const uint64_t c = g.below(3) ? Draw(g) : a, d = g.below(3) ? Draw(g) : b; const hwy::uint128_t x{a, b}, y{c, d}; const int o = ord((u128(b) << 64) | a, (u128(d) << 64) | c);
  if (HWY_UNLIKELY((x < y) != (o < 0) || (x > y) != (o > 0) || (x == y) != (o == 0))) BAD("uint128_t", "0x%llx%016llx and 0x%llx%016llx", ull(b), ull(a), ull(d), ull(c));
  const hwy::K64V64 k{a, b}, l{c, d}; if (HWY_UNLIKELY((k < l) != (b < d) || (k > l) != (b > d) || (k == l) != (b == d))) BAD("K64V64", "keys %llu and %llu", ull(b), ull(d));
  const hwy::K32V32 m{uint32_t(a), uint32_t(b)}, n{uint32_t(c), uint32_t(d)}; if (HWY_UNLIKELY((m < n) != (uint32_t(b) < uint32_t(d)) || (m > n) != (uint32_t(b) > uint32_t(d)) || (m == n) != (uint32_t(b) == uint32_t(d)))) BAD("K32V32", "keys %u and %u", uint32_t(b), uint32_t(d));
  Rep().evaluations.fetch_add(60, std::memory_order_relaxed);
}
template <class T> static void Floats(uint64_t raw, uint64_t raw2) {
  using TU = hwy::MakeUnsigned<T>; const TU u = TU(raw), v = TU(raw2); T f, s; memcpy(&f, &u, sizeof(T)); memcpy(&s, &v, sizeof(T)); const TU top = TU(TU(1) << (sizeof(T) * 8 - 1)); const char* n = sizeof(T) == 4 ? "f32" : "f64";
  auto bits = [](T x) { TU r; memcpy(&r, &x, sizeof(T)); return r; };
  if (HWY_UNLIKELY(bits(hwy::ScalarAbs(f)) != (u & ~top))) BAD(Fmt("ScalarAbs/%s", n), "0x%llx", ull(u));
  if (HWY_UNLIKELY(bits(hwy::ScalarCopySign(f, s)) != ((u & ~top) | (v & top)))) BAD(Fmt("ScalarCopySign/%s", n), "0x%llx 0x%llx", ull(u), ull(v));
  if (HWY_UNLIKELY(hwy::ScalarIsNaN(f) != std::isnan(f) || hwy::ScalarIsInf(f) != std::isinf(f) || hwy::ScalarIsFinite(f) != std::isfinite(f) || hwy::ScalarSignBit(f) != std::signbit(f))) BAD(Fmt("Classify/%s", n), "0x%llx: nan %d inf %d finite %d sign %d", ull(u), hwy::ScalarIsNaN(f), hwy::ScalarIsInf(f), hwy::ScalarIsFinite(f), hwy::ScalarSignBit(f));
  if (HWY_UNLIKELY(hwy::BitCastScalar<TU>(f) != u || bits(hwy::BitCastScalar<T>(u)) != u)) BAD(Fmt("BitCastScalar/%s", n), "0x%llx", ull(u));
  Rep().evaluations.fetch_add(8, std::memory_order_relaxed);
}
// ------------------------------------------------------------ types
template <class T> static void IntLimits() {
  using L = std::numeric_limits<T>; Report& R = Rep(); const std::string k = Fmt("limits/%s%zu", L::is_signed ? "i" : "u", sizeof(T) * 8);
  R.Check(hwy::LimitsMax<T>() == L::max() && hwy::LimitsMin<T>() == L::min() && hwy::LowestValue<T>() == L::lowest() && hwy::HighestValue<T>() == L::max() && hwy::NegativeInfOrLowestValue<T>() == L::lowest() && hwy::PositiveInfOrHighestValue<T>() == L::max(), k, "limits");
  R.Check(hwy::IsSigned<T>() == L::is_signed && !hwy::IsFloat<T>() && hwy::IsInteger<T>() && hwy::IsIntegerLaneType<T>() && hwy::SignMask<T>() == typename std::make_unsigned<T>::type(typename std::make_unsigned<T>::type(1) << (sizeof(T) * 8 - 1)), k, "traits");
  R.Check(std::is_same<hwy::MakeUnsigned<T>, typename std::make_unsigned<T>::type>::value && std::is_same<hwy::MakeSigned<T>, typename std::make_signed<T>::type>::value, k, "MakeUnsigned");
  R.Check(std::is_same<hwy::UnsignedFromSize<sizeof(T)>, typename std::make_unsigned<T>::type>::value && std::is_same<hwy::SignedFromSize<sizeof(T)>, typename std::make_signed<T>::type>::value, k, "FromSize"); R.Eval(16);
}
template <class T> static void FloatLimits() {
  using L = std::numeric_limits<T>; using TU = hwy::MakeUnsigned<T>; Report& R = Rep(); const std::string k = Fmt("limits/f%zu", sizeof(T) * 8); auto bits = [](T x) { TU r; memcpy(&r, &x, sizeof(T)); return r; };
  R.Check(hwy::LowestValue<T>() == L::lowest() && hwy::HighestValue<T>() == L::max() && hwy::Epsilon<T>() == L::epsilon() && hwy::NegativeInfOrLowestValue<T>() == -L::infinity() && hwy::PositiveInfOrHighestValue<T>() == L::infinity(), k, "limits");
  R.Check(hwy::MantissaBits<T>() == L::digits - 1 && hwy::ExponentBits<T>() == int(sizeof(T) * 8) - L::digits && hwy::MaxExponentField<T>() == (1 << hwy::ExponentBits<T>()) - 1 && hwy::MantissaEnd<T>() == std::ldexp(T(1), L::digits - 1), k, "fields");
  R.Check(hwy::SignMask<T>() == bits(T(-0.0)) && hwy::ExponentMask<T>() == bits(L::infinity()) && hwy::MantissaMask<T>() == TU(~(hwy::SignMask<T>() | hwy::ExponentMask<T>())) && TU(hwy::MaxExponentTimes2<T>()) == TU(bits(L::infinity()) << 1), k, "masks"); R.Check(hwy::IsFloat<T>() && hwy::IsFloat3264<T>() && hwy::IsSigned<T>() && !hwy::IsInteger<T>(), k, "traits"); R.Eval(16);
}
template <size_t N> static void CopyN(Rng& g) { uint8_t from[N + 16], to[N + 32], ref[N + 32]; for (auto& v : from) v = uint8_t(g()); for (size_t i = 0; i < N + 32; ++i) ref[i] = to[i] = uint8_t(g()); const size_t off = g.below(16), so = g.below(16); hwy::CopyBytes<N>(from + so, to + off); memcpy(ref + off, from + so, N); Rep().Check(!memcmp(to, ref, N + 32), "CopyBytes", "%zu constant bytes", N); hwy::ZeroBytes<N>(to + off); memset(ref + off, 0, N); Rep().Check(!memcmp(to, ref, N + 32), "ZeroBytes", "%zu constant bytes", N); Rep().Eval(2); }
static void Copies(Rng& g) {
  CopyN<1>(g); CopyN<2>(g); CopyN<3>(g); CopyN<4>(g); CopyN<7>(g); CopyN<8>(g); CopyN<16>(g); CopyN<33>(g); CopyN<64>(g); CopyN<100>(g);
  const size_t n = g.below(300); std::vector<uint8_t> from(n + 1), to(n + 64), ref; for (auto& v : from) v = uint8_t(g()); for (auto& v : to) v = uint8_t(g()); ref = to; const size_t off = g.below(60); hwy::CopyBytes(from.data(), to.data() + off, n); if (n) memcpy(ref.data() + off, from.data(), n); Rep().Check(to == ref, "CopyBytes", "%zu bytes", n); hwy::ZeroBytes(to.data() + off, n); if (n) memset(ref.data() + off, 0, n); Rep().Check(to == ref, "ZeroBytes", "%zu bytes", n);
  const double d = double(int64_t(g())); uint64_t w, r; hwy::CopySameSize(&d, &w); memcpy(&r, &d, 8); Rep().Check(w == r, "CopySameSize", "%a", d); Rep().Eval(3);
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); StartWatchdog(300); const char* sc = getenv("VT_SCALE"); const double scale = (R.thorough ? 40 : 1) * (sc ? atof(sc) : 1); const bool small = sc && atof(sc) < 1;
  IntLimits<uint8_t>(); IntLimits<int8_t>(); IntLimits<uint16_t>(); IntLimits<int16_t>(); IntLimits<uint32_t>(); IntLimits<int32_t>(); IntLimits<uint64_t>(); IntLimits<int64_t>(); FloatLimits<float>(); FloatLimits<double>();
  std::atomic<int> next{0}; const int kJobs = 256; std::vector<std::thread> ts;
  for (int t = 0; t < R.threads; ++t) ts.emplace_back([&] {
    for (int j; (j = next++) < kJobs;) {
      Watched w("helpers job %d", j); Rng g(R.seed * 7919 + uint64_t(j)); std::unordered_set<uint64_t> see; const int n = int(20000 * scale);
      for (int i = 0; i < n; ++i) { const uint64_t a = Draw(g), b = g.below(8) ? Draw(g) : a; Misc(a, b, g); Floats<float>(a, b); Floats<double>(g.below(2) ? a : a << g.below(64), b); if (i % 8 == 0) see.insert(Mix(a, b)); }
      for (int i = 0; i < 2 * n; ++i) { const uint32_t d = Draw32(g); if (d) { Div32(g, d, 4); see.insert(Mix(32, d)); } const uint64_t e = Draw(g); if (e) { Div64(g, e); see.insert(Mix(64, e)); } }
      // Every divisor of a stretch of 2^32, every step-th one (all of them in the thorough tier).
      const uint32_t step = R.thorough ? 1 : small ? 9973 : 61; uint64_t c = 0; for (uint64_t d = (uint64_t(j) << 24) + 1 + g.below(step); d < (uint64_t(j + 1) << 24); d += step, ++c) Div32(g, uint32_t(d), 1); R.Count("divisors32_in_sequence", c);
      if (j < (R.thorough ? 64 : 8)) { const uint32_t sel[] = {7, 641, 0x7FFFFFFF, 0x80000001, 0xFFFFFFFF, 3, 1000000007, 0x55555555}; Div32AllN(j < 8 ? sel[j] : Draw32(g) | 1, 0, small ? 1009 : 1); }
      for (int i = 0; i < n / 20; ++i) Copies(g);
      for (uint32_t v = uint32_t(j) << 8; v < (uint32_t(j) + 1) << 8; ++v) { BitsOf<uint8_t>(v, g); BitsOf<int8_t>(v, g); BitsOf<uint16_t>(v, g); BitsOf<int16_t>(v, g); R.Eval(20); }
      R.SeeAll(see);
    }
  });
  for (auto& t : ts) t.join();
  R.Sample(Fmt("native 128-bit type in the code under test: %d, precomputed 64-bit division: %d",
#ifdef __SIZEOF_INT128__
               1,
#else
               0,
#endif
               HWY_HAVE_DIV128));
  return R.Write();
}
