// P18: vector generator against xoshiro256++ whose jumps are computed as
// powers of its transition matrix (no jump polynomials).
#include "../common/cpu.h"
#include "../common/report.h"
#include "../common/watch.h"
#include "../common/guard.h"
#include "rng.h"
#include <array>
namespace vt {
std::vector<RngApi>& RngApis() { static auto* v = new std::vector<RngApi>; return *v; }
typedef std::array<uint64_t, 4> S;
static uint64_t Rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t Step(S& s) {
  const uint64_t r = Rotl(s[0] + s[3], 23) + s[0], t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = Rotl(s[3], 45); return r;
}
// Column i is the image of the i-th basis vector.
struct Mat { std::vector<S> c; Mat() : c(256) {} S Apply(const S& v) const { S r{}; for (int i = 0; i < 256; ++i) if (v[i >> 6] >> (i & 63) & 1) for (int k = 0; k < 4; ++k) r[k] ^= c[i][k]; return r; } };
static Mat Square(const Mat& m) { Mat r; for (int i = 0; i < 256; ++i) r.c[i] = m.Apply(m.c[i]); return r; }
static Mat g_jump, g_long;
static void InitJumps() {
  Mat m; for (int i = 0; i < 256; ++i) { S s{}; s[i >> 6] = 1ull << (i & 63); Step(s); m.c[i] = s; }
  for (int i = 0; i < 192; ++i) { if (i == 128) g_jump = m; m = Square(m); }
  g_long = m;
}
static S Seeded(uint64_t seed) { Rng sm(seed); S s; for (auto& v : s) v = sm(); return s; }  // Rng is splitmix64
static double Unit(uint64_t u) { return double(u >> 11) / 9007199254740992.0; }
struct Model {
  std::vector<S> lane;
  Model(size_t lanes, uint64_t seed, uint64_t thread) { S s = Seeded(seed); for (uint64_t t = 0; t < thread; ++t) s = g_long.Apply(s); for (size_t i = 0; i < lanes; ++i) { lane.push_back(s); s = g_jump.Apply(s); } }
  // Values in output order; whole vectors are consumed.
  std::vector<uint64_t> Take(size_t n) { std::vector<uint64_t> r; for (size_t i = 0; i < n; i += lane.size()) for (S& s : lane) { const uint64_t v = Step(s); if (r.size() < n) r.push_back(v); } return r; }
};
static uint64_t SeedOf(Rng& g) { const uint64_t k = g.below(8); return k == 0 ? 0 : k == 1 ? ~0ull : k == 2 ? g.below(16) : k == 3 ? 0x9e3779b97f4a7c15ull * g.below(9) : g(); }
static uint64_t ThreadOf(Rng& g) { return g.below(3) == 0 ? 0 : g.below(9) == 0 ? g.below(200) : g.below(6); }
static void History(const RngApi& a, Rng& g) {
  Report& R = Rep(); const uint64_t seed = SeedOf(g), thread = ThreadOf(g); const size_t L = a.lanes;
  Watched w("rng|%s", a.target);
  void* p = a.create(seed, thread); Model m(L, seed, thread); const std::string d0 = Fmt("seed 0x%llx thread %llu", (unsigned long long)seed, (unsigned long long)thread);
  std::string log; uint64_t h = Mix(seed, thread), ev = 0;
  auto key = [&](const char* k) { return std::string(k) + "/" + a.target; };
  R.Check(a.state_size(p) == 4 * L, key("state-size"), "%llu", (unsigned long long)a.state_size(p));
  for (int step = 0, steps = 1 + int(g.below(20)); step < steps; ++step) {
    const int op = int(g.below(a.f64 ? kRngOps : kUniform)); size_t n = g.below(5) == 0 ? g.below(700) : g.below(3) == 0 ? L * g.below(20) : g.below(40);
    const bool arr = op == kArray || op == kUniformArray; const size_t cnt = op == kNext || op == kUniform ? L : arr ? kArraySizes[n % kNumArraySizes] : n;
    log += Fmt(" %d:%zu", op, cnt);
    std::vector<uint64_t> u; std::vector<double> f;
    a.run(p, op, n, u, f);
    const std::vector<uint64_t> want = m.Take(cnt); const char* names[] = {"next", "batch", "array", "uniform", "uniform-batch", "uniform-array"};
    if (op < kUniform) {
      if (!R.Check(u.size() == cnt, key(names[op]), "%s:%s returned %zu values", d0.c_str(), log.c_str(), u.size())) break;
      for (size_t i = 0; i < cnt; ++i) if (u[i] != want[i]) { R.Viol(key(names[op]), d0 + log + Fmt(": value %zu is 0x%llx want 0x%llx", i, (unsigned long long)u[i], (unsigned long long)want[i])); break; }
    } else {
      if (!R.Check(f.size() == cnt, key(names[op]), "%s:%s returned %zu values", d0.c_str(), log.c_str(), f.size())) break;
      for (size_t i = 0; i < cnt; ++i) if (!(f[i] >= 0 && f[i] < 1) || f[i] != Unit(want[i])) { R.Viol(key(names[op]), d0 + log + Fmt(": value %zu is %.17g want %.17g", i, f[i], Unit(want[i]))); break; }
    }
    ev += cnt; h = Mix(Mix(h, uint64_t(op)), cnt);
    std::vector<uint64_t> st; a.state(p, st); bool ok = st.size() == 4 * L; for (size_t j = 0; ok && j < 4; ++j) for (size_t i = 0; i < L; ++i) ok = ok && st[j * L + i] == m.lane[i][j];
    R.Check(ok, key("state"), "%s:%s internal state differs from the reference", d0.c_str(), log.c_str());
  }
  a.destroy(p); R.Eval(ev); R.See(h);
}
static void Cached(const RngApi& a, Rng& g) {
  Report& R = Rep(); const uint64_t seed = SeedOf(g), thread = ThreadOf(g); const int k = int(g.below(5)); const size_t sizes[] = {1, 2, 8, 64, 1024}; Watched w("cached|%s", a.target);
  void* p = nullptr; p = a.ccreate(k, seed, thread);
  const std::string d0 = Fmt("cache %zu seed 0x%llx thread %llu", sizes[k], (unsigned long long)seed, (unsigned long long)thread);
  Model m(a.lanes, seed, thread); const size_t n = 1 + g.below(sizes[k] == 1024 ? 3500 : 300);
  std::vector<uint64_t> want; while (want.size() < n) { const auto c = m.Take(sizes[k]); want.insert(want.end(), c.begin(), c.end()); }
  for (size_t i = 0; i < n; ++i) { const uint64_t v = a.cnext(p, k); if (v != want[i]) { R.Viol(std::string("cached/") + a.target, d0 + Fmt(": value %zu is 0x%llx want 0x%llx", i, (unsigned long long)v, (unsigned long long)want[i])); break; } }
  a.cdestroy(p, k); R.Eval(n); R.See(Mix(Mix(seed, thread), n * 8 + uint64_t(k)));
}
static void ScalarGen(const RngApi& a, Rng& g) {
  Report& R = Rep(); const uint64_t seed = SeedOf(g), thread = ThreadOf(g); const int longs = int(g.below(4)); const size_t n = g.below(50);
  S s = Seeded(seed); for (uint64_t t = 0; t < thread; ++t) s = g_jump.Apply(s); for (int t = 0; t < longs; ++t) s = g_long.Apply(s);
  std::vector<uint64_t> u, st; std::vector<double> f; a.scalar(seed, thread, longs, n, u, f, st); bool ok = u.size() == n;
  for (size_t i = 0; ok && i < n; ++i) ok = u[i] == Step(s);
  if (a.f64) for (size_t i = 0; ok && i < n; ++i) ok = f.size() == n && f[i] == Unit(Step(s));
  for (size_t i = 0; ok && i < 4; ++i) ok = st.size() == 4 && st[i] == s[i];
  R.Check(ok, std::string("scalar/") + a.target, "seed 0x%llx jumps %llu long jumps %d n %zu", (unsigned long long)seed, (unsigned long long)thread, longs, n); R.Eval(2 * n + 4); R.See(Mix(Mix(seed, thread), uint64_t(longs) * 64 + n));
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); StartWatchdog(60); InitJumps();
  const char* sc = getenv("VT_SCALE"); const int reps = int((R.thorough ? 40000 : 12000) * (sc ? atof(sc) : 1));
  std::vector<const RngApi*> as; for (const RngApi& a : RngApis()) { if (!CpuSupports(a.target)) { R.skipped.insert(a.target); continue; } R.targets.insert(a.target); as.push_back(&a); }
  std::atomic<int> next{0}; const int jobs = int(as.size()) * 16; std::vector<std::thread> ts;
  for (int t = 0; t < R.threads; ++t) ts.emplace_back([&] { for (int j; (j = next++) < jobs;) { const RngApi& a = *as[size_t(j) % as.size()]; Rng g(R.seed * 1000003 + uint64_t(j) * 7919 + a.lanes); for (int i = 0; i < reps / 16; ++i) { History(a, g); if (i % 3 == 0) Cached(a, g); if (i % 4 == 0) ScalarGen(a, g); } } });
  for (auto& t : ts) t.join();
  R.Sample(Fmt("%d call histories per target, jumps checked against matrix powers 2^128 and 2^192", reps));
  return R.Write();
}
