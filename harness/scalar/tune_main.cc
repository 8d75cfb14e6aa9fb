// P22: AutoTune / CostDistribution / NextWithSkip under adversarial cost streams.
#include "../common/report.h"
#include "../common/watch.h"
#include "../common/aborts.h"
#include <cmath>
#include <limits>
#include <functional>
#include "hwy/auto_tune.h"
namespace vt {
static std::atomic<uint64_t> g_done{0};
enum Style { kNoise, kEqual, kZero, kHuge, kSpiky, kDriftUp, kDriftDown, kAdversary, kTiny, kTwoValued, kClear, kClearSpiky, kStyles };
static const char* StyleName(int s) { static const char* n[] = {"noise", "equal", "zero", "huge", "spiky", "drift-up", "drift-down", "adversary", "tiny", "two-valued", "clear-winner", "clear-winner-spiky"}; return n[s]; }
struct Cfg { uint32_t id, check; };
template <size_t kMin> static void Tune(size_t N, int style, uint64_t seed) {
  Report& R = Rep(); Rng g(seed);
  std::vector<Cfg> cand; for (size_t i = 0; i < N; ++i) cand.push_back({uint32_t(i), uint32_t(i * 2654435761u + 1)});
  const size_t winner = g.below(N);
  hwy::AutoTune<Cfg, kMin> t;
  const std::string d = Fmt("AutoTune|kMinSamples %zu candidates %zu style %s seed %llu", kMin, N, StyleName(style), (unsigned long long)seed);
  AbortContext() = d; Watched w("%s", d.c_str());
  R.Check(!t.Best() && !t.HasCandidates(), "AutoTune/initial-state", "%s", d.c_str());
  t.SetCandidates(cand);
  const auto sp = t.Candidates();  // only allowed before Best()
  R.Check(t.HasCandidates() && sp.size() == N, "AutoTune/candidates", "%s", d.c_str());
  const uint64_t limit = uint64_t(N) * (3 * kMin / 2 + 2);
  uint64_t n = 0; std::vector<uint64_t> tried(N, 0); uint64_t h = seed; uint64_t total = 0;
  const uint64_t base = 1 + g.below(1000000);
  while (!t.Best()) {
    const Cfg c = t.NextConfig();
    if (!R.Check(c.id < N && c.check == uint32_t(c.id * 2654435761u + 1), "AutoTune/not-a-candidate", "%s proposed id %u", d.c_str(), c.id)) return;
    ++tried[c.id];
    uint64_t cost = 0;
    switch (style) {
      case kNoise: cost = base + g.below(base * 2); break;
      case kEqual: cost = base; break;
      case kZero: cost = 0; break;
      case kHuge: cost = g.below(3) ? ~0ull - g.below(5) : g(); break;
      case kSpiky: cost = base + c.id * base / 16 + (g.below(8) == 0 ? base * 1000 : g.below(base / 8 + 1)); break;
      case kDriftUp: cost = base + n * base / 4; break;
      case kDriftDown: cost = base * 1000 - std::min(base * 999, n * base / 4); break;
      case kAdversary: cost = tried[c.id] * tried[c.id] * base; break;   // every candidate looks worse each time
      case kTiny: cost = g.below(3); break;
      case kTwoValued: cost = g.below(2) ? 1 : 1000000000; break;
      case kClear: cost = (c.id == winner ? 1000 : 4000) + g.below(200); break;
      case kClearSpiky: cost = (c.id == winner ? 1000 : 4000 + 37 * c.id) + g.below(200) + (g.below(12) == 0 ? 3000 : 0); break;
    }
    h = Mix(h, Mix(c.id, cost)); ++n; ++total;
    t.NotifyCost(cost);
    if (!R.Check(n <= limit, "AutoTune/does-not-finish", "%s after %llu reports (every round measures at most each candidate once)", d.c_str(), (unsigned long long)n)) return;
  }
  // All candidates get at least the first round.
  for (size_t i = 0; i < N; ++i) R.Check(tried[i] >= 1, "AutoTune/candidate-never-tried", "%s candidate %zu", d.c_str(), i);
  const Cfg* best = t.Best();
  R.Check(best >= sp.data() && best < sp.data() + N && best->check == uint32_t(best->id * 2654435761u + 1), "AutoTune/best-not-a-candidate", "%s", d.c_str());
  for (int i = 0; i < 5; ++i) R.Check(t.Best() == best, "AutoTune/best-changes", "%s", d.c_str());
  if (style == kClear || (style == kClearSpiky && kMin >= 6)) R.Check(best->id == winner, "AutoTune/clear-winner-not-chosen", "%s chose %u, winner %zu (cost %f vs %f)", d.c_str(), best->id, winner, t.Costs()[best->id].EstimateCost(), t.Costs()[winner].EstimateCost());
  R.Eval(n); R.See(h); g_done++;
  if (g.below(300) == 0) R.Sample(d + Fmt(" -> best %u after %llu reports", best->id, (unsigned long long)n));
  AbortContext().clear();
}
template <size_t kMin> static void TuneAll(uint64_t seed, int reps) {
  for (int r = 0; r < reps; ++r) for (int style = 0; style < kStyles; ++style) for (size_t N : {1, 2, 3, 5, 17, 64, 300}) { if (N >= 64 && r % 4) continue; Tune<kMin>(N, style, Mix(seed, uint64_t(r) * 1000 + style * 10 + N)); }
}
// The estimate of a cost distribution lies within the observed costs.
static void Costs(uint64_t seed, int reps) {
  Report& R = Rep(); Rng g(seed);
  for (int r = 0; r < reps; ++r) {
    hwy::CostDistribution c; double lo = 1e300, hi = -1; const size_t n = 1 + g.below(g.below(3) ? 20 : 300); const double scale = std::pow(10.0, double(g.below(18)));
    const int style = int(g.below(7)); uint64_t h = 0; double cur = g.unit();
    AbortContext() = Fmt("CostDistribution|style %d n=%zu", style, n);
    for (size_t i = 0; i < n; ++i) {
      double x = 0;
      switch (style) { case 0: x = g.unit(); break; case 1: x = 1; break; case 2: x = g.below(2); break; case 3: x = g.below(10) ? 1 + 0.01 * g.unit() : 50 * g.unit(); break; case 4: x = double(i); break; case 5: x = double(n - i); break; case 6: cur = std::fabs(cur + g.unit() - 0.5); x = cur; break; }
      x *= scale; lo = std::min(lo, x); hi = std::max(hi, x); c.Notify(x); h = Mix(h, uint64_t(x * 1000));
      if (i + 1 >= 2 && g.below(n) == 0) { const double e = c.EstimateCost(); R.Check(e >= lo - 1e-9 * hi && e <= hi * (1 + 1e-9), "CostDistribution/estimate-outside-samples", "style %d n=%zu estimate %g range %g..%g", style, i + 1, e, lo, hi); }
    }
    const double e = c.EstimateCost(), e2 = c.EstimateCost();
    R.Check(e >= lo - 1e-9 * hi && e <= hi * (1 + 1e-9), "CostDistribution/estimate-outside-samples", "style %d n=%zu estimate %g range %g..%g", style, n, e, lo, hi);
    R.Check(e == e2, "CostDistribution/estimate-unstable", "style %d n=%zu", style, n);
    R.Eval(); R.See(h);
  }
  AbortContext().clear();
}
// Circular list with removal against a vector model.
static void Lists(uint64_t seed, int reps) {
  Report& R = Rep(); Rng g(seed);
  for (int r = 0; r < reps; ++r) {
    const size_t n = r % 5 == 0 ? 1 + g.below(3) : r % 5 == 1 ? 16000 + g.below(383) : 1 + g.below(60);
    hwy::NextWithSkip l(n); std::vector<size_t> in; for (size_t i = 0; i < n; ++i) in.push_back(i);
    AbortContext() = Fmt("NextWithSkip|%zu", n);
    for (size_t s = 0; s < std::min<size_t>(2 * n, 200); ++s) {
      const size_t k = g.below(in.size());
      R.Eval(); R.Check(l.Next(in[k]) == in[(k + 1) % in.size()], "NextWithSkip/next", "n=%zu remaining %zu", n, in.size());
      if (g.below(2)) { l.Skip(in[k]); if (in.size() > 1) in.erase(in.begin() + long(k)); }
      const size_t k2 = g.below(in.size()); R.Check(l.Next(in[k2]) == in[(k2 + 1) % in.size()], "NextWithSkip/next", "n=%zu remaining %zu", n, in.size());
    }
    for (size_t k = 0; k < in.size(); ++k) R.Check(l.Next(in[k]) == in[(k + 1) % in.size()], "NextWithSkip/next", "n=%zu remaining %zu", n, in.size());
    R.See(Mix(n, in.size()));
  }
  AbortContext().clear();
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); WatchAborts(); StartWatchdog(60);
  const int m = R.thorough ? 25 : Quick(4);
  TuneAll<1>(R.seed + 1, 4 * m); TuneAll<2>(R.seed + 2, 12 * m); TuneAll<3>(R.seed + 3, 6 * m); TuneAll<6>(R.seed + 4, 6 * m); TuneAll<14>(R.seed + 5, 4 * m); TuneAll<30>(R.seed + 6, 4 * m); TuneAll<50>(R.seed + 7, 2 * m);
  Costs(R.seed, 20000 * m); Lists(R.seed, 500 * m);
  R.counters["tunings completed"] = g_done;
  return R.Write();
}
