// P23: Stats / Bins / robust_statistics against long double two-pass references
// and sorted copies.
#include "../common/report.h"
#include "../common/aborts.h"
#include <sys/mman.h>
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <limits>
#include "hwy/stats.h"
#include "hwy/robust_statistics.h"
namespace vt {
using LD = long double;
static std::vector<float> Samples(Rng& g, size_t n, int style, float scale) {
  std::vector<float> v(n); const float off = float(g.unit()) * scale;
  for (size_t i = 0; i < n; ++i) {
    double x = 0;
    switch (style) {
      case 0: x = g.unit(); break;
      case 1: x = 3.0; break;
      case 2: x = double(i + 1); break;
      case 3: x = double(n - i); break;
      case 4: x = g.below(10) ? 1 + 0.01 * g.unit() : 100; break;
      case 5: x = std::exp(20 * (g.unit() - 0.5)); break;
      case 6: x = g.unit() - 0.5; break;               // both signs
      case 7: x = (i & 1) ? 1.0 : -1.0; break;
      case 8: x = 1000 + g.unit(); break;              // large mean, small spread
      case 9: x = double(g.below(3)) + 1; break;
      case 10: x = g.unit() * g.unit() * g.unit() + 1e-3; break;  // skewed
    }
    v[i] = float(x) * scale; if (style == 0 && n % 3 == 0) v[i] += off;
  }
  return v;
}
constexpr int kStyles = 11;
static void Near(const char* what, double got, LD want, LD tol, const std::string& d) {
  Rep().Eval();
  Rep().Check(std::fabs(LD(got) - want) <= tol, std::string("Stats/") + what, "%s: got %.17g want %.17Lg tolerance %Lg", d.c_str(), got, want, tol);
}
static void Compare(const hwy::Stats& s, const std::vector<float>& v, const std::string& d, LD slack) {
  Report& R = Rep(); const size_t n = v.size(); R.Eval(3);
  R.Check(s.Count() == int64_t(n), "Stats/Count", "%s: got %lld want %zu", d.c_str(), (long long)s.Count(), n);
  if (n == 0) { for (double x : {s.Mean(), s.GeometricMean(), s.SampleVariance(), s.Variance(), s.Skewness(), s.Kurtosis()}) R.Check(x == 0.0, "Stats/empty", "%s", d.c_str()); R.Check(s.ToString() == "(none)", "Stats/empty", "%s", d.c_str()); return; }
  const float lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
  R.Check(s.Min() == lo, "Stats/Min", "%s: got %g want %g", d.c_str(), s.Min(), lo);
  R.Check(s.Max() == hi, "Stats/Max", "%s: got %g want %g", d.c_str(), s.Max(), hi);
  LD sum = 0, slog = 0, labs = 0, A = 0, S = 0; for (float x : v) { sum += x; A = std::max(A, LD(std::fabs(x))); if (lo > 0) { slog += std::log(LD(x)); labs = std::max(labs, std::fabs(std::log(LD(x)))); } }
  const LD mean = sum / LD(n); LD m[5] = {0, 0, 0, 0, 0};
  for (float x : v) { const LD e = LD(x) - mean; S = std::max(S, std::fabs(e)); m[2] += e * e; m[3] += e * e * e; m[4] += e * e * e * e; }
  const LD eps = LD(DBL_EPSILON), nn = LD(n);
  auto tol = [&](int k) { return slack * 16 * eps * nn * (nn + 4) * (A + S) * std::pow(S, LD(k - 1)) + slack * std::pow(eps * A, LD(k)) * nn; };
  Near("Mean", s.Mean(), mean, slack * 8 * eps * nn * A, d); Near("Mu1", s.Mu1(), mean, slack * 8 * eps * nn * A, d);
  Near("SampleVariance", s.SampleVariance(), m[2] / nn, tol(2) / nn, d); Near("Mu2", s.Mu2(), m[2] / nn, tol(2) / nn, d);
  const LD var = n == 1 ? 0 : m[2] / (nn - 1); const LD tv = tol(2) / (n == 1 ? 1 : nn - 1);
  Near("Variance", s.Variance(), var, tv, d);
  if (var > 4 * tv) Near("StandardDeviation", s.StandardDeviation(), std::sqrt(var), tv / std::sqrt(var), d);
  Near("Mu3", s.Mu3(), m[3] / nn, tol(3) / nn, d); Near("Mu4", s.Mu4(), m[4] / nn, tol(4) / nn, d);
  if (m[2] > 2E-7L && m[2] > 100 * tol(2)) {
    const LD sk = m[3] * std::sqrt(nn) / std::pow(m[2], 1.5L), tsk = tol(3) * std::sqrt(nn) / std::pow(m[2], 1.5L) + 4 * std::fabs(sk) * tol(2) / m[2] + 1e-12L;
    const LD ku = m[4] * nn / (m[2] * m[2]), tku = tol(4) * nn / (m[2] * m[2]) + 4 * ku * tol(2) / m[2] + 1e-12L; const LD r = (nn - 1) / nn;
    Near("SampleSkewness", s.SampleSkewness(), sk, tsk, d); Near("SampleKurtosis", s.SampleKurtosis(), ku, tku, d);
    Near("Skewness", s.Skewness(), sk * std::pow(r, 1.5L), tsk, d); Near("Kurtosis", s.Kurtosis(), ku * r * r, tku, d);
    R.Count("samples with skewness and kurtosis compared");
  }
  if (lo > 0) { const LD gm = std::exp(slog / nn); Near("GeometricMean", s.GeometricMean(), gm, gm * slack * 8 * eps * (nn + 2) * (labs + 1), d); }
  // The text shows the same numbers.
  if (lo > 0) {
    unsigned long long c = 0; double p[7] = {0}; const std::string t = s.ToString(); const double w[7] = {s.Mean(), s.StandardDeviation(), s.Min(), s.Max(), s.Skewness(), s.Kurtosis(), s.GeometricMean()};
    const int f = sscanf(t.c_str(), "Count=%llu Mean=%lf SD=%lf Min=%lf Max=%lf Skew=%lf Kurt=%lf GeoMean=%lf", &c, p, p + 1, p + 2, p + 3, p + 4, p + 5, p + 6);
    R.Eval(); R.Check(f == 8 && c == n, "Stats/ToString", "%s: %s", d.c_str(), t.c_str());
    for (int i = 0; i < 7 && f == 8; ++i) { const double ad = i == 4 || i == 5 ? 0.006 : i == 6 ? 1e-6 : 0; R.Check(std::fabs(p[i] - w[i]) <= ad + (i < 2 ? 0.06 : 1e-5) * std::fabs(w[i]), "Stats/ToString", "%s field %d: %s (value %g)", d.c_str(), i, t.c_str(), w[i]); }
    R.Check(s.ToString(hwy::Stats::kNoCount).find("Count") == std::string::npos && s.ToString(hwy::Stats::kNoMeanSD | hwy::Stats::kNoMinMax | hwy::Stats::kNoGeomean).find("M") == std::string::npos && s.ToString(hwy::Stats::kNoSkewKurt).find("Kurt") == std::string::npos && s.ToString(hwy::Stats::kNoGeomean | hwy::Stats::kNoMeanSD).find("Mean") == std::string::npos, "Stats/ToString-exclude", "%s", d.c_str());
  }
}
static void Accumulators(uint64_t seed, int reps) {
  Report& R = Rep(); Rng g(seed);
  for (int r = 0; r < reps; ++r) {
    const size_t n = r % 40 == 0 ? 0 : r % 4 == 0 ? 1 + g.below(4) : r % 50 == 1 ? 70000 + g.below(1000) : 1 + g.below(800);
    const int style = int(g.below(kStyles)); const float scale = std::pow(10.f, float(int(g.below(9)) - 4));
    const std::vector<float> v = Samples(g, n, style, scale);
    const std::string d = Fmt("style %d n=%zu scale %g seed %llu", style, n, scale, (unsigned long long)seed); AbortContext() = "Stats|" + d;
    hwy::Stats s; for (float x : v) s.Notify(x);
    Compare(s, v, d, 1);
    // Split into parts (some empty), merge in random order.
    const size_t parts = 1 + g.below(n > 10000 ? 3 : 9); std::vector<hwy::Stats> ps(parts); std::vector<size_t> cut{0, n}; for (size_t i = 1; i < parts; ++i) cut.push_back(g.below(3) ? g.below(n + 1) : n / 2); std::sort(cut.begin(), cut.end());
    for (size_t p = 0; p < parts; ++p) for (size_t i = cut[p]; i < cut[p + 1]; ++i) ps[p].Notify(v[i]);
    while (ps.size() > 1) { const size_t a = g.below(ps.size()); size_t b = g.below(ps.size() - 1); if (b >= a) ++b; ps[a].Assimilate(ps[b]); ps.erase(ps.begin() + long(b)); }
    Compare(ps[0], v, "merged " + d + Fmt(" parts %zu", parts), 4);
    // Continue accumulating after a merge, and reset.
    std::vector<float> w = v; const std::vector<float> more = Samples(g, 1 + g.below(20), style, scale); for (float x : more) { ps[0].Notify(x); w.push_back(x); }
    Compare(ps[0], w, "after merge " + d, 4);
    ps[0].Reset(); Compare(ps[0], {}, "after Reset", 1);
    R.See(HashBytes(uint64_t(parts), v.data(), n * 4));
    if (g.below(400) == 0) R.Sample(d + ": " + s.ToString());
  }
  // Counts beyond 2^31 (merging doubles the sample).
  { hwy::Stats s; for (float x : {1.f, 2.f, 4.f, 9.f}) s.Notify(x); for (int i = 0; i < 26; ++i) { const hwy::Stats o = s; s.Assimilate(o); }
    const double n = 4.0 * (1 << 26); R.Check(s.Count() == int64_t(n), "Stats/Count", "doubling"); Near("Mean", s.Mean(), 4.0L, 1e-9L, "doubling"); Near("SampleVariance", s.SampleVariance(), 9.5L, 1e-8L, "doubling"); Near("Mu3", s.Mu3(), (-27 - 8 + 125) / 4.0L, 1e-7L, "doubling"); Near("Mu4", s.Mu4(), (81 + 16 + 625) / 4.0L, 1e-6L, "doubling"); Near("GeometricMean", s.GeometricMean(), std::pow(72.0L, 0.25L), 1e-6L, "doubling"); }
  AbortContext().clear();
}
// Text that f writes to stderr.
template <class F> static std::string Captured(F&& f) {
  fflush(stderr); const int fd = memfd_create("cap", 0), old = dup(2); if (fd < 0 || old < 0) { perror("memfd"); exit(2); }
  dup2(fd, 2); f(); fflush(stderr); dup2(old, 2); close(old);
  std::string s; lseek(fd, 0, SEEK_SET); char b[4096]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) s.append(b, size_t(k)); close(fd); return s;
}
template <size_t N> static void Hist(const hwy::Bins<N>& h, const std::vector<size_t>& want, const char* what) {
  const std::string t = Captured([&] { h.Print("caption"); }); Report& R = Rep();
  std::vector<size_t> got; size_t cap = 0; const char* p = strstr(t.c_str(), "caption ["); R.Eval();
  if (!R.Check(p && sscanf(p, "caption [%zu]", &cap) == 1 && cap == N, "Bins/Print", "%s: %s", what, t.c_str())) return;
  p = strchr(p, ']') + 1; char* e; for (;;) { const size_t x = strtoull(p, &e, 10); if (e == p) break; got.push_back(x); p = e; }
  std::vector<size_t> w = want; while (w.size() > 1 && w.back() == 0) w.pop_back();
  R.Check(got == w, "Bins/counts", "%s: N=%zu got %zu lines want %zu", what, N, got.size(), w.size());
}
template <size_t N> static void BinsTest(uint64_t seed, int reps) {
  Report& R = Rep(); Rng g(seed + N);
  for (int r = 0; r < reps; ++r) {
    AbortContext() = Fmt("Bins|%zu", N);
    hwy::Bins<N> a, b; std::vector<size_t> wa(N, 0), wb(N, 0);
    Hist<N>(a, wa, "empty");
    const size_t n = g.below(300); for (size_t i = 0; i < n; ++i) { const size_t x = g.below(4) ? g.below(N) : (g.below(2) ? 0 : N - 1); switch (g.below(5)) { case 0: a.Notify(x); break; case 1: a.Notify(int(x)); break; case 2: a.Notify(uint64_t(x)); break; case 3: a.Notify(float(x)); break; default: a.Notify(double(x) + 0.5 * (x + 1 < N)); break; } ++wa[x]; }
    for (size_t i = 0; i < n / 2; ++i) { const size_t x = g.below(N); b.Notify(x); ++wb[x]; }
    Hist<N>(a, wa, "Notify"); Hist<N>(b, wb, "Notify");
    a.Assimilate(b); for (size_t i = 0; i < N; ++i) wa[i] += wb[i]; Hist<N>(a, wa, "Assimilate"); Hist<N>(b, wb, "Assimilate (other)");
    R.See(HashBytes(N, wa.data(), N * 8)); a.Reset(); Hist<N>(a, std::vector<size_t>(N, 0), "Reset");
  }
  AbortContext().clear();
}
template <class T> static std::vector<T> Ints(Rng& g, size_t n, int style) {
  std::vector<T> v(n); const T hi = std::numeric_limits<T>::max();
  for (auto& x : v) switch (style) {
    case 0: x = T(g() & uint64_t(hi)); break;
    case 1: x = T(g.below(4)); break;
    case 2: x = T(hi - T(g.below(5))); break;
    case 3: x = g.below(3) ? T(7) : T(g() & uint64_t(hi)); break;
    case 4: x = T(g.below(100)); break;
    case 5: x = T(1); break;
    default: x = g.below(2) ? hi : T(0); break;
  }
  return v;
}
// Half-sample mode as documented: repeatedly keep the half with the smallest range (first if tied).
template <class T> static T RefMode(const std::vector<T>& s) {
  size_t b = 0, h = s.size() / 2;
  while (h > 1) { size_t best = b; for (size_t i = b; i < b + h; ++i) if (T(s[i + h] - s[i]) < T(s[best + h] - s[best])) best = i; b = best; h /= 2; }
  if (h == 0) return s[b];
  return T(s[b] + (unsigned __int128)(T(s[b + 1] - s[b]) + (unsigned __int128)1) / 2);
}
template <class T> static void Robust(const char* tn, uint64_t seed, int reps) {
  Report& R = Rep(); Rng g(seed);
  for (int r = 0; r < reps; ++r) {
    const int style = int(g.below(7)); const size_t n = 1 + g.below(r % 3 ? 12 : 400); const std::vector<T> v = Ints<T>(g, n, style);
    const std::string d = Fmt("%s style %d n=%zu", tn, style, n); AbortContext() = "robust|" + d;
    std::vector<T> s = v; std::sort(s.begin(), s.end());
    std::vector<T> c = v; hwy::robust_statistics::CountingSort(c.data(), n); R.Eval(); R.Check(c == s, "CountingSort", "%s", d.c_str());
    c = v; const T med = hwy::robust_statistics::Median(c.data(), n);
    auto half = [&](const std::vector<T>& q) { return n % 2 ? q[n / 2] : T(q[n / 2 - 1] + ((unsigned __int128)T(q[n / 2] - q[n / 2 - 1]) + 1) / 2); };
    R.Eval(); R.Check(med == half(s), "Median", "%s got %llu want %llu", d.c_str(), (unsigned long long)med, (unsigned long long)half(s));
    c = v; const T mode = hwy::robust_statistics::Mode(c.data(), n); R.Eval(); R.Check(mode == RefMode(s), "Mode", "%s got %llu want %llu", d.c_str(), (unsigned long long)mode, (unsigned long long)RefMode(s));
    R.Check(hwy::robust_statistics::ModeOfSorted(s.data(), n) == mode && mode >= s[0] && mode <= s[n - 1], "Mode", "%s outside the sample", d.c_str());
    for (size_t i = 0, j; i < n; i = j) { for (j = i; j < n && s[j] == s[i]; ++j) {} if (j - i > n / 2 + 1) { R.Eval(); R.Check(mode == s[i], "Mode/majority", "%s got %llu want %llu", d.c_str(), (unsigned long long)mode, (unsigned long long)s[i]); } }
    if (uint64_t(s[n - 1]) < (1ull << 63)) {
      std::vector<T> dev; for (T x : v) dev.push_back(x > med ? T(x - med) : T(med - x)); std::sort(dev.begin(), dev.end());
      const T mad = hwy::robust_statistics::MedianAbsoluteDeviation(v.data(), n, med); R.Eval(); R.Check(mad == half(dev), "MedianAbsoluteDeviation", "%s got %llu want %llu", d.c_str(), (unsigned long long)mad, (unsigned long long)half(dev));
    }
    R.See(HashBytes(sizeof(T), v.data(), n * sizeof(T)));
  }
  AbortContext().clear();
}
template <class T> static void Floats(uint64_t seed, int reps) {  // odd counts: the median is a sample
  Report& R = Rep(); Rng g(seed);
  for (int r = 0; r < reps; ++r) { const size_t n = 1 + 2 * g.below(100); std::vector<T> v(n); for (auto& x : v) x = T(g.below(3) ? g.unit() - 0.5 : double(g.below(5))); std::vector<T> s = v, c = v; std::sort(s.begin(), s.end());
    R.Eval(2); R.Check(hwy::robust_statistics::Median(c.data(), n) == s[n / 2], "Median/float", "n=%zu", n); c = v; hwy::robust_statistics::CountingSort(c.data(), n); R.Check(c == s, "CountingSort/float", "n=%zu", n); }
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); WatchAborts();
  const int m = R.thorough ? 15 : Quick(4);
  Accumulators(R.seed, 3000 * m);
  BinsTest<1>(R.seed, 20 * m); BinsTest<2>(R.seed, 50 * m); BinsTest<10>(R.seed, 100 * m); BinsTest<64>(R.seed, 50 * m); BinsTest<300>(R.seed, 50 * m);
  Robust<uint8_t>("u8", R.seed + 1, 3000 * m); Robust<uint16_t>("u16", R.seed + 2, 3000 * m); Robust<uint32_t>("u32", R.seed + 3, 3000 * m); Robust<uint64_t>("u64", R.seed + 4, 3000 * m);
  Floats<float>(R.seed, 300 * m); Floats<double>(R.seed, 300 * m);
  return R.Write();
}
