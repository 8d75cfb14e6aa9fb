// P15: math functions against the C library in a wider format.
#include "../common/cpu.h"
#include "../common/report.h"
#include "../common/watch.h"
#include "math.h"
#include <math.h>
#include <limits>
#include <thread>
namespace vt {
std::vector<MathApi>& MathApis() { static auto* v = new std::vector<MathApi>; return *v; }
static const char* const kNames[kMathFns] = {"Acos", "Acosh", "Asin", "Asinh", "Atan", "Atanh", "Cos", "Exp", "Exp2", "Expm1", "Log", "Log10", "Log1p", "Log2", "Sin", "Sinh", "Tanh", "SinCos-sin", "SinCos-cos", "Atan2", "Hypot"};
// Documented errors; Atan2 has none and gets that of Atan plus one for the added rounding.
static double MaxUlp(int f, bool f64) { static const int u[kMathFns] = {2, 3, 2, 3, 3, 3, 3, 1, 2, 4, 4, 2, 2, 2, 3, 4, 4, 0, 0, 4, 4}; return f == kSinOfSinCos || f == kCosOfSinCos ? (f64 ? 1 : 3) : u[f]; }
template <class R> static R Ref(int f, R a, R b) {
  switch (f) {
    case kAcos: return std::acos(a); case kAcosh: return std::acosh(a); case kAsin: return std::asin(a); case kAsinh: return std::asinh(a); case kAtan: return std::atan(a); case kAtanh: return std::atanh(a);
    case kCos: case kCosOfSinCos: return std::cos(a); case kExp: return std::exp(a); case kExp2: return std::exp2(a); case kExpm1: return std::expm1(a); case kLog: return std::log(a); case kLog10: return std::log10(a);
    case kLog1p: return std::log1p(a); case kLog2: return std::log2(a); case kSin: case kSinOfSinCos: return std::sin(a); case kSinh: return std::sinh(a); case kTanh: return std::tanh(a); case kAtan2: return std::atan2(a, b); default: return std::hypot(a, b);
  }
}
template <class T> static void Range(int f, T& lo, T& hi) {
  const bool d = sizeof(T) == 8; hi = std::numeric_limits<T>::max(); lo = -hi; const T den = std::numeric_limits<T>::denorm_min();
  switch (f) {
    case kAcos: case kAsin: lo = -1; hi = 1; break; case kAcosh: lo = 1; break; case kAtanh: hi = std::nextafter(T(1), T(0)); lo = -hi; break;
    case kCos: case kSin: case kSinOfSinCos: case kCosOfSinCos: lo = -39000; hi = 39000; break; case kExp: case kExpm1: hi = d ? T(706) : T(104); break; case kExp2: hi = d ? T(1024) : T(128); break;
    case kLog: case kLog10: case kLog2: lo = den; break; case kLog1p: lo = 0; break; case kSinh: hi = d ? T(709) : T(88.7228f); lo = -hi; break; default: break;
  }
}
template <class T> struct FT;
template <> struct FT<float> { using I = int32_t; using U = uint32_t; using R = double; enum { kBits = 24, kMin = -149 }; };
template <> struct FT<double> { using I = int64_t; using U = uint64_t; using R = long double; enum { kBits = 53, kMin = -1074 }; };
template <class T> static int64_t Ord(T x) { typename FT<T>::I i; memcpy(&i, &x, sizeof(T)); return i < 0 ? -int64_t(i & std::numeric_limits<typename FT<T>::I>::max()) : int64_t(i); }
template <class T> static T FromOrd(int64_t o) { using U = typename FT<T>::U; const U u = o < 0 ? U(U(-o) | (U(1) << (sizeof(T) * 8 - 1))) : U(o); T x; memcpy(&x, &u, sizeof(T)); return x; }
// Distance to the exact result in units of the last place of its rounding; huge if of another class.
template <class T> static double Err(T got, typename FT<T>::R ref, T rounded) {
  if (std::isnan(got) || std::isnan(rounded)) return std::isnan(got) && std::isnan(rounded) ? 0 : 1E300;
  if (got == rounded) return 0;
  if (std::isinf(got) || std::isinf(rounded)) return std::fabs(double(Ord(got)) - double(Ord(rounded)));
  int e; std::frexp(rounded, &e); e -= FT<T>::kBits; if (e < FT<T>::kMin) e = FT<T>::kMin;
  return double(std::fabs(std::ldexp(typename FT<T>::R(got) - ref, -e)));
}
template <class T> static T Special(int f, Rng& g, T lo, T hi) {
  static const double sp[] = {0, -0.0, 1, -1, 0.5, -0.5, 0.25, 0.75, 2, 3, 0.6931471805599453, 1.0986122886681098, 0.34657359027997264, 0.2440660188, 0.70710678118654757, 1.41421356, 18.714973875, -18.714973875, 37.43, 88.7, -87.3, -103.9, -104, 104, 127.999, -126, -149.5, 708.3, -708.4, -745.1, 706, 1023.9999, -1022, -1074.5, 4194304, 268435456, 0.0625, 0.015625, 1e-4, 1e-8, 1e-30, 1e-300, 1e30, 1e300, 39000, -39000};
  T x; const uint64_t k = g.below(4);
  if (k == 0) x = T(std::ldexp(1.0, int(g.below(sizeof(T) == 8 ? 2090 : 270)) - (sizeof(T) == 8 ? 1070 : 145)));
  else if (k == 1) x = g.below(2) ? lo : hi;
  else x = T(sp[g.below(sizeof(sp) / sizeof(sp[0]))]);
  if (g.below(3) == 0) x = -x;
  const int64_t o = Ord(x) + int64_t(g.below(17)) - 8; (void)f; return FromOrd<T>(o);
}
template <class T> static T Draw(int f, Rng& g, T lo, T hi, int64_t strided) {
  T x; const uint64_t k = g.below(16);
  if (k < 8) x = FromOrd<T>(strided);
  else if (k < 11) { const double l = lo < T(-39000) ? -39000 : double(lo), h = hi > T(39000) ? 39000 : double(hi), s = g.below(2) ? 1 : std::ldexp(1.0, -int(g.below(16))); x = T((l + (h - l) * g.unit()) * s); }
  else if (k < 14) { const int64_t q = int64_t(g.below(99000)) - 49500; x = FromOrd<T>(Ord(T(0.78539816339744830961566L * (long double)(q >> g.below(16)))) + int64_t(g.below(5)) - 2); }
  else x = Special<T>(f, g, lo, hi);
  return !(x >= lo) ? lo : !(x <= hi) ? hi : x;
}
template <class T> static T Any(Rng& g) { const uint64_t k = g.below(8); if (k == 0) { static const double s[] = {0, -0.0, INFINITY, -INFINITY, NAN}; return T(s[g.below(5)]); } return FromOrd<T>(int64_t(g() >> (64 - 8 * sizeof(T) + 1)) * (g.below(2) ? 1 : -1)); }
struct Stat { double worst = 0; uint64_t n = 0; };
static std::mutex g_mu; static std::map<std::string, Stat> g_stat;
template <class T> static void Block(int f, size_t blk, size_t blocks, uint64_t seed) {
  using R = typename FT<T>::R; using U = typename FT<T>::U; Report& rep = Rep(); const bool f64 = sizeof(T) == 8, two = f == kAtan2 || f == kHypot; const size_t B = 4096;
  Rng g(Mix(Mix(seed, blk), uint64_t(f * 2 + f64))); T lo, hi; Range<T>(f, lo, hi); const int64_t a0 = Ord(lo), b0 = Ord(hi); const __int128 span = (__int128)b0 - a0;
  std::vector<T> a(B), b(B), o(B), o2(B), pa(B), pb(B), rr(B); std::vector<R> ref(B);
  for (size_t i = 0; i < B; ++i) {
    if (two) {
      a[i] = Any<T>(g); b[i] = Any<T>(g); const uint64_t k = g.below(4);
      if (k < 2) { int e; std::frexp(a[i], &e); const double s = std::ldexp(1.0 + g.unit(), int(g.below(k ? 60 : 3)) - (k ? 30 : 1)); const T v = T(a[i] * T(s)); if (!std::isnan(v)) b[i] = g.below(2) ? v : -v; if (g.below(2)) std::swap(a[i], b[i]); }
      if (k == 2 && g.below(4) == 0) (g.below(2) ? a : b)[i] = T(0) * (g.below(2) ? T(1) : T(-1));
    } else a[i] = Draw<T>(f, g, lo, hi, int64_t(a0 + span * (__int128)((blk * B + i)) / (__int128)(blocks * B) + (__int128)g.below(1 + uint64_t(span / (__int128)(blocks * B)))));
    ref[i] = Ref<R>(f, R(a[i]), R(b[i])); rr[i] = T(ref[i]);
  }
  const size_t rot = 1 + g.below(63); const bool call = blk & 1; const double lim = MaxUlp(f, f64) + 0.51; uint64_t h = 0;
  for (size_t i = 0; i < B; ++i) h = HashBytes(h, &rr[i], sizeof(T));
  for (const MathApi& m : MathApis()) {
    if (m.fn != f || m.f64 != f64 || !CpuSupports(m.target)) continue;
    Watched w("%s|%s|%s", kNames[f], f64 ? "f64" : "f32", m.target);
    m.run(a.data(), b.data(), o.data(), B, call); double worst = 0; const std::string key = Fmt("%s/%s/%s%s", kNames[f], f64 ? "f64" : "f32", m.target, m.capped ? "/part" : "");
    for (size_t i = 0; i < B; ++i) {
      const double e = Err<T>(o[i], ref[i], rr[i]); if (e > worst) worst = e;
      if (e > lim || (two && !std::isnan(rr[i]) && std::signbit(rr[i]) != std::signbit(o[i]))) { rep.Viol(key, Fmt("x %a y %a: got %a want %.22Lg, error %.3g ulp, documented %g", double(a[i]), double(b[i]), double(o[i]), (long double)ref[i], e, lim - 0.51)); break; }
    }
    // Other positions, other neighbours (some out of range), other entry point: same bits.
    for (size_t i = 0; i < B; ++i) { pa[i] = a[(i + rot) % B]; pb[i] = b[(i + rot) % B]; }
    std::vector<size_t> hole; for (size_t i = 0; i < B; i += 1 + g.below(6)) { hole.push_back(i); pa[i] = Any<T>(g); pb[i] = Any<T>(g); }
    if ((blk & 3) == 0) {
      m.run(pa.data(), pb.data(), o2.data(), B, !call); size_t hi2 = 0;
      for (size_t i = 0; i < B; ++i) {
        if (hi2 < hole.size() && hole[hi2] == i) { ++hi2; continue; }
        const T x = o[(i + rot) % B], y = o2[i]; U ux, uy; memcpy(&ux, &x, sizeof(T)); memcpy(&uy, &y, sizeof(T));
        if (ux != uy && !(std::isnan(x) && std::isnan(y))) { rep.Viol(key + "/lanes", Fmt("x %a y %a: %a or %a depending on neighbours, position or wrapper", double(pa[i]), double(pb[i]), double(x), double(y))); break; }
      }
      rep.Eval(B);
    }
    rep.Eval(B);
    std::lock_guard<std::mutex> l(g_mu); Stat& s = g_stat[std::string(kNames[f]) + (f64 ? " f64" : " f32")]; if (worst > s.worst) s.worst = worst; s.n += B;
  }
  std::unordered_set<uint64_t> see; for (size_t i = 0; i < B; i += 16) see.insert(Mix(HashBytes(uint64_t(f), &a[i], sizeof(T)), HashBytes(7, &b[i], sizeof(T)))); rep.SeeAll(see);
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); StartWatchdog(60);
  for (const MathApi& m : MathApis()) (CpuSupports(m.target) ? R.targets : R.skipped).insert(m.target);
  const char* sc = getenv("VT_SCALE"); const double scale = sc ? atof(sc) : 1;
  const size_t n32 = size_t((R.thorough ? 16384 : 800) * scale) + 1, n64 = size_t((R.thorough ? 6000 : 300) * scale) + 1;
  std::atomic<size_t> next{0}; const size_t jobs = size_t(kMathFns) * (n32 + n64); std::vector<std::thread> ts;
  for (int t = 0; t < R.threads; ++t) ts.emplace_back([&] { for (size_t j; (j = next++) < jobs;) { const int f = int(j / (n32 + n64)); const size_t k = j % (n32 + n64); if (!R.Want(kNames[f])) continue; if (k < n32) Block<float>(f, k, n32, R.seed); else Block<double>(f, k - n32, n64, R.seed); } });
  for (auto& t : ts) t.join();
  for (auto& kv : g_stat) { R.Count("results_compared", kv.second.n); R.Max("worst_ulp_x100 " + kv.first, uint64_t(kv.second.worst < 1E15 ? kv.second.worst * 100 : 1E17)); }
  R.Sample(Fmt("%zu float and %zu double inputs per function, half of them spread evenly over all representable values of the documented range", n32 * 4096, n64 * 4096));
  return R.Write();
}
