// P19: hwy::float16_t and hwy::bfloat16_t against exact arithmetic. Built with
// and without the compiler's native 16-bit types.
#include "../common/report.h"
#include "../common/watch.h"
#include "../arrays/fp.h"
#include "hwy/base.h"
#include <limits>
namespace vt {
using hwy::float16_t; using hwy::bfloat16_t;
struct F16 {
  using T = float16_t; static const char* Name() { return "f16"; } enum { kMan = 10, kExp = 5 };
  static float ToF32(T x) { return hwy::F32FromF16(x); } static T Of32(float f) { return hwy::F16FromF32(f); } static T Of64(double f) { return hwy::F16FromF64(f); } static double D(uint16_t b) { return F16ToD(b); } static float Mem(const void* p) { return hwy::F32FromF16Mem(p); }
};
struct BF16 {
  using T = bfloat16_t; static const char* Name() { return "bf16"; } enum { kMan = 7, kExp = 8 };
  static float ToF32(T x) { return hwy::F32FromBF16(x); } static T Of32(float f) { return hwy::BF16FromF32(f); } static T Of64(double f) { return hwy::BF16FromF64(f); } static double D(uint16_t b) { return BF16ToD(b); } static float Mem(const void* p) { return hwy::F32FromBF16Mem(p); }
};
template <class T> static uint16_t Bits(T x) { uint16_t b; memcpy(&b, &x, 2); return b; }
template <class K> static typename K::T Make(uint16_t b) { return K::T::FromBits(b); }
template <class K> static bool IsNaN16(uint16_t b) { return (b & 0x7FFF) > (((1u << K::kExp) - 1) << K::kMan); }
template <class K> static uint16_t Round(double d) { return DToSmall(d, K::kMan, K::kExp); }
static float F(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static uint32_t U(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
template <class K> static bool Same(uint16_t got, uint16_t want) { return got == want || (IsNaN16<K>(got) && IsNaN16<K>(want)); }

// All float bit patterns |lo| + i*step in [lo, hi) of one sign: the reference walks the
// sorted list of rounding boundaries, which are exact floats.
template <class K> static void Walk(uint32_t lo, uint32_t hi, uint32_t step, bool neg) {
  Report& R = Rep(); const uint32_t inf16 = ((1u << K::kExp) - 1) << K::kMan; const uint32_t sign = neg ? 0x80000000u : 0; const uint16_t s16 = neg ? 0x8000 : 0; uint64_t n = 0; uint32_t worst = 0; bool bad = false;
  auto boundary = [&](uint32_t h) -> double { const double up = h + 1 < inf16 ? K::D(uint16_t(h + 1)) : 2 * K::D(uint16_t(h)) - K::D(uint16_t(h - 1)); return (K::D(uint16_t(h)) + up) / 2; };  // between h and h+1
  uint32_t h = lo <= 0x7F800000u ? Round<K>(double(F(lo))) : inf16; double b = h < inf16 ? boundary(h) : 0;
  for (uint64_t x = lo; x < hi; x += step) {
    const float f = F(uint32_t(x) | sign), m = F(uint32_t(x)); uint16_t want;
    if (x > 0x7F800000u) want = uint16_t(inf16 | 1);
    else { while (h < inf16 && (double(m) > b || (double(m) == b && (h & 1)))) { ++h; if (h < inf16) b = boundary(h); } want = uint16_t(h); }
    const uint16_t got = Bits(K::Of32(f)); ++n;
    if (HWY_UNLIKELY(got != (want | s16)) && !(x > 0x7F800000u && IsNaN16<K>(got)) && !bad) { bad = true; worst = uint32_t(x) | sign; R.Viol(std::string(K::Name()) + "/from-f32", Fmt("%a (0x%08x) became 0x%04x, want 0x%04x", double(F(worst)), worst, got, want | s16)); }
  }
  R.Eval(n); R.Count(std::string("f32_converted_to_") + K::Name(), n);
}
template <class K> static void AllBack() {
  Report& R = Rep(); std::unordered_set<uint64_t> see;
  for (uint32_t b = 0; b < 65536; ++b) {
    const uint16_t h = uint16_t(b); const auto v = Make<K>(h); const float f = K::ToF32(v), fm = K::Mem(&h); const double want = K::D(h);
    if (IsNaN16<K>(h)) R.Check(f != f && fm != fm && hwy::ScalarIsNaN(v), std::string(K::Name()) + "/to-f32", "NaN 0x%04x became %a", b, double(f));
    else {
      R.Check(double(f) == want && std::signbit(f) == std::signbit(want) && U(f) == U(fm), std::string(K::Name()) + "/to-f32", "0x%04x became %a (from memory %a), want %a", b, double(f), double(fm), want);
      R.Check(Bits(K::Of32(f)) == h && Bits(K::Of64(double(f))) == h, std::string(K::Name()) + "/round-trip", "0x%04x became 0x%04x / 0x%04x", b, Bits(K::Of32(f)), Bits(K::Of64(double(f))));
      R.Check(hwy::ConvertScalarTo<double>(v) == want && hwy::ConvertScalarTo<float>(v) == float(want), std::string(K::Name()) + "/convert", "0x%04x", b);
    }
    R.Check(Bits(v) == h && Bits(hwy::ConvertScalarTo<typename K::T>(v)) == h && hwy::BitCastScalar<uint16_t>(v) == h, std::string(K::Name()) + "/bits", "0x%04x", b);
    const bool inf = std::isinf(want), nan = IsNaN16<K>(h);
    R.Check(hwy::ScalarIsNaN(v) == nan && hwy::ScalarIsInf(v) == inf && hwy::ScalarIsFinite(v) == (!nan && !inf) && hwy::ScalarSignBit(v) == bool(h & 0x8000) && Bits(hwy::ScalarAbs(v)) == (h & 0x7FFF), std::string(K::Name()) + "/classify", "0x%04x", b);
    see.insert(Mix(uint64_t(K::kMan), h)); R.Eval(9);
  }
  R.SeeAll(see);
}
template <class K> static void One64(double d, uint64_t& n) {
  const uint16_t got = Bits(K::Of64(d)), want = Round<K>(d); ++n;
  if (HWY_UNLIKELY(!Same<K>(got, want))) Rep().Viol(std::string(K::Name()) + "/from-f64", Fmt("%a became 0x%04x, want 0x%04x", d, got, want));
}
template <class K> static void From64(uint64_t seed, uint64_t randoms) {
  Rng g(seed); uint64_t n = 0; const uint32_t inf16 = ((1u << K::kExp) - 1) << K::kMan;
  for (uint32_t h = uint32_t(seed % 8); h < inf16; h += 8) {
    const double a = K::D(uint16_t(h)), up = h + 1 < inf16 ? K::D(uint16_t(h + 1)) : 2 * a - K::D(uint16_t(h - 1)), mid = (a + up) / 2;
    for (double base : {a, mid}) for (int s = 0; s < 2; ++s) {
      for (int k = 0; k < 56; ++k) { const double e = std::ldexp(up - a, -k - 1); for (double d : {base + e, base - e}) One64<K>(s ? -d : d, n); }
      uint64_t u; memcpy(&u, &base, 8);
      for (int64_t k = -4; k <= 4; ++k) { const uint64_t w = u + uint64_t(k); double d; memcpy(&d, &w, 8); if (base != 0 || k >= 0) One64<K>(s ? -d : d, n); }
    }
  }
  for (uint64_t i = 0; i < randoms; ++i) { uint64_t u = g(); const uint64_t k = g.below(4); if (k < 3) { const int bias = k ? int(g.below(2 * (1u << (K::kExp - 1)) + 60)) - (1 << (K::kExp - 1)) - 50 : int(g.below(40)) - 20; u = (u & 0x800FFFFFFFFFFFFFull) | (uint64_t(1023 + bias) << 52); if (g.below(3) == 0) u &= ~((1ull << g.below(52)) - 1); } double d; memcpy(&d, &u, 8); One64<K>(d, n); if (u & 1) { const float f = F(uint32_t(g())); One64<K>(double(f), n); } }
  Rep().Eval(n); Rep().Count(std::string("f64_converted_to_") + K::Name(), n);
}
template <class T> static bool Eq64(T a, T b) { return a == b || (a != a && b != b); }
template <class K> static void Pair(uint16_t x, uint16_t y, uint64_t& n) {
  Report& R = Rep(); const auto a = Make<K>(x), b = Make<K>(y); const double da = K::D(x), db = K::D(y); n += 6;
  const bool ok = (a == b) == (da == db) && (a != b) == (da != db) && (a < b) == (da < db) && (a <= b) == (da <= db) && (a > b) == (da > db) && (a >= b) == (da >= db);
  if (HWY_UNLIKELY(!ok)) R.Viol(std::string(K::Name()) + "/compare", Fmt("0x%04x and 0x%04x: == %d != %d < %d <= %d > %d >= %d", x, y, a == b, a != b, a < b, a <= b, a > b, a >= b));
#ifdef VT_ARITH
  if constexpr (VT_ARITH & (K::kMan == 10 ? 1 : 2)) {
    n += 8;
#define OP(op, NAME) { const uint16_t want = Round<K>(da op db); auto c = a; c op##= b; const uint16_t got = Bits(typename K::T(a op b)); if (HWY_UNLIKELY(!Same<K>(got, want) || !Same<K>(Bits(c), want))) R.Viol(std::string(K::Name()) + "/" NAME, Fmt("0x%04x " #op " 0x%04x = 0x%04x, assigned 0x%04x, want 0x%04x", x, y, got, Bits(c), want)); }
    OP(+, "add") OP(-, "sub") OP(*, "mul") OP(/, "div")
  }
#endif
}
#ifdef VT_ARITH
template <class K> static void Mixed(uint16_t x, Rng& g, uint64_t& n) {
  Report& R = Rep(); const auto a = Make<K>(x); const double da = K::D(x); n += 20;
  const float f = g.below(2) ? F(uint32_t(g())) : float(K::D(uint16_t(g()))); const double d = g.below(2) ? double(f) : std::ldexp(double(int64_t(g())), int(g.below(120)) - 100); const int i = int(g.below(513)) - 256;  // exact in both types
  const float fa = float(da);
#define MIX(op) if (!Eq64<double>(double(a op f), double(fa op f)) || !Eq64<double>(double(f op a), double(f op fa)) || !Eq64<double>(double(a op d), da op d) || !Eq64<double>(double(d op a), d op da)) R.Viol(std::string(K::Name()) + "/mixed" #op, Fmt("0x%04x with %a and %a", x, double(f), d));
  MIX(+) MIX(-) MIX(*) MIX(/)
#undef MIX
#define MIX(op) if ((a op f) != (fa op f) || (f op a) != (f op fa) || (a op d) != (da op d) || (d op a) != (d op da)) R.Viol(std::string(K::Name()) + "/mixed" #op, Fmt("0x%04x with %a and %a", x, double(f), d));
  MIX(==) MIX(!=) MIX(<) MIX(<=) MIX(>) MIX(>=)
#undef MIX
  const uint16_t ri = Round<K>(double(i)); const double di = K::D(ri);
#define MIX(op) { const uint16_t w1 = Round<K>(da op di), w2 = Round<K>(di op da), g1 = Bits(typename K::T(a op i)), g2 = Bits(typename K::T(i op a)); if (!Same<K>(g1, w1) || !Same<K>(g2, w2)) R.Viol(std::string(K::Name()) + "/mixed-int" #op, Fmt("0x%04x with %d: 0x%04x 0x%04x want 0x%04x 0x%04x", x, i, g1, g2, w1, w2)); }
  MIX(+) MIX(-) MIX(*) MIX(/)
#undef MIX
  auto t = a; const uint16_t inc = Round<K>(da + 1), dec = Round<K>(da - 1);
  R.Check(Same<K>(Bits(++t), inc) && Same<K>(Bits(t), inc), std::string(K::Name()) + "/++x", "0x%04x", x); t = a;
  R.Check(Same<K>(Bits(t++), x) && Same<K>(Bits(t), inc), std::string(K::Name()) + "/x++", "0x%04x", x); t = a;
  R.Check(Same<K>(Bits(--t), dec) && Same<K>(Bits(t), dec), std::string(K::Name()) + "/--x", "0x%04x", x); t = a;
  R.Check(Same<K>(Bits(t--), x) && Same<K>(Bits(t), dec), std::string(K::Name()) + "/x--", "0x%04x", x);
  R.Check(Same<K>(Bits(-a), x ^ 0x8000) && Same<K>(Bits(+a), x) && (IsNaN16<K>(x) || (Bits(-a) == (x ^ 0x8000))), std::string(K::Name()) + "/negate", "0x%04x", x);
  const typename K::T cf(f); R.Check(Same<K>(Bits(cf), Round<K>(double(f))), std::string(K::Name()) + "/construct", "%a became 0x%04x", double(f), Bits(cf));
}
#endif
template <class K> static uint16_t Draw16(Rng& g) { const uint64_t k = g.below(8); if (k == 0) { const uint32_t inf = ((1u << K::kExp) - 1) << K::kMan; const uint32_t s[] = {0, 1, 2, (1u << K::kMan) - 1, 1u << K::kMan, (1u << K::kMan) + 1, inf - 1, inf, inf + 1, 0x7FFF, uint32_t(K::kMan == 7 ? 0x3F80 : 0x3C00)}; return uint16_t(s[g.below(11)] | (g() & 0x8000)); } return uint16_t(g()); }
template <class K> static void Pairs(uint64_t seed, uint64_t count) {
  Rng g(seed); uint64_t n = 0; std::unordered_set<uint64_t> see;
  for (uint64_t i = 0; i < count; ++i) {
    uint16_t x = Draw16<K>(g), y = Draw16<K>(g); const uint64_t k = g.below(8);
    if (k < 3) y = uint16_t((x & ~((1u << K::kMan) - 1)) + (g() & ((4u << K::kMan) - 1)) - (2u << K::kMan));  // close exponents
    if (k == 3) y = uint16_t(x ^ (g.below(2) ? 0x8000 : 0)); if (k == 4) y = uint16_t(x + g.below(5) - 2);
    Pair<K>(x, y, n); if (i % 64 == 0) see.insert(Mix(uint64_t(K::kMan) << 32, x * 65536ull + y));
#ifdef VT_ARITH
    if constexpr (VT_ARITH & (K::kMan == 10 ? 1 : 2)) if (i % 4 == 0) Mixed<K>(x, g, n);
#endif
  }
  Rep().Eval(n); Rep().SeeAll(see); Rep().Count(std::string("operator_results_") + K::Name(), n);
}
template <class K> static void Limits() {
  Report& R = Rep(); using T = typename K::T; const std::string k = std::string(K::Name()) + "/limits"; const double eps = std::ldexp(1.0, -int(K::kMan)); const uint16_t inf = uint16_t(((1u << K::kExp) - 1) << K::kMan);
  R.Check(Bits(hwy::HighestValue<T>()) == inf - 1 && Bits(hwy::LowestValue<T>()) == ((inf - 1) | 0x8000), k, "highest/lowest"); R.Check(K::D(Bits(hwy::Epsilon<T>())) == eps, k, "epsilon"); R.Check(hwy::MantissaBits<T>() == K::kMan && hwy::ExponentBits<T>() == K::kExp, k, "bits");
  R.Check(Bits(hwy::PositiveInfOrHighestValue<T>()) == inf && Bits(hwy::NegativeInfOrLowestValue<T>()) == (inf | 0x8000), k, "infinities"); R.Check(hwy::ExponentMask<T>() == inf && hwy::SignMask<T>() == 0x8000 && hwy::MantissaMask<T>() == (1u << K::kMan) - 1, k, "masks"); R.Check(hwy::MaxExponentField<T>() == (1 << K::kExp) - 1, k, "max exponent"); R.Check(hwy::IsFloat<T>() == (K::kMan == 10) && !hwy::IsFloat3264<T>() && hwy::IsSpecialFloat<T>() && hwy::IsSigned<T>() && !hwy::IsInteger<T>(), k, "traits"); R.Check(K::D(Bits(hwy::MantissaEnd<T>())) == std::ldexp(1.0, K::kMan), k, "MantissaEnd"); R.Eval(12);
}
static void Cross() { Report& R = Rep(); for (uint32_t b = 0; b < 65536; ++b) { const uint16_t h = uint16_t(b); const uint16_t g1 = Bits(hwy::ConvertScalarTo<float16_t>(Make<BF16>(h))), w1 = Round<F16>(BF16ToD(h)), g2 = Bits(hwy::ConvertScalarTo<bfloat16_t>(Make<F16>(h))), w2 = Round<BF16>(F16ToD(h)); R.Check(Same<F16>(g1, w1), "bf16/to-f16", "0x%04x became 0x%04x want 0x%04x", b, g1, w1); R.Check(Same<BF16>(g2, w2), "f16/to-bf16", "0x%04x became 0x%04x want 0x%04x", b, g2, w2); } R.Eval(2 * 65536); }
template <class K> static void Job(int j, uint32_t step, Rng& g) {
  Report& R = Rep(); Watched w("%s job %d", K::Name(), j);
  if (j < 64) { const uint32_t lo = uint32_t(j / 2) << 26; Walk<K>(lo + (step > 1 ? uint32_t(g.below(step)) : 0), lo + (1u << 26), step, j & 1); }
  else if (j < 72) From64<K>(R.seed * 8 + uint64_t(j - 64), R.thorough ? 40000000 : step > 1 ? 100000 : 1000000);
  else if (j < 80) Pairs<K>(R.seed * 100 + uint64_t(j), R.thorough ? 60000000 : step > 1 ? 200000 : 1500000);
  else if (j == 80) { AllBack<K>(); Limits<K>(); if (K::kMan == 7) Cross(); }
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); StartWatchdog(300); const char* st = getenv("VT_STEP"); const uint32_t step = R.thorough || !st ? 1 : uint32_t(atoi(st));
  std::atomic<int> next{0}; std::vector<std::thread> ts;
  for (int t = 0; t < R.threads; ++t) ts.emplace_back([&] { for (int i; (i = next++) < 162;) { const int j = 80 - i / 2; Rng g(R.seed * 77 + uint64_t(i)); if (i & 1) Job<F16>(j, step, g); else Job<BF16>(j, step, g); } });
  for (auto& t : ts) t.join();
  R.Sample(Fmt("float inputs: every %u%s bit pattern; native f16 type %d operators %d, native bf16 operators %d", step, step == 1 ? "st" : "th", HWY_HAVE_SCALAR_F16_TYPE, HWY_HAVE_SCALAR_F16_OPERATORS, HWY_HAVE_SCALAR_BF16_OPERATORS));
  return R.Write();
}
