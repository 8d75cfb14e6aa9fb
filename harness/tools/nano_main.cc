// P30: nanobenchmark and timers under a scripted clock and simulated CPUs.
#include <math.h>
#include <algorithm>
#include <thread>
#include "common/aborts.h"
#include "common/child.h"
#include "common/step.h"
#include "common/vclock.h"
#include "hwy/nanobenchmark.h"
#include "hwy/timer.h"
namespace vt {
// ---- the measured function: cost depends on the input
struct World {
  Rng g{1}; std::map<size_t, uint64_t> cost; int outlier_percent = 0; uint64_t outlier_max = 0, jitter = 0; bool drift = false; uint64_t calls = 0; const void* arg = nullptr; bool bad_input = false, bad_arg = false, closure = false;
  std::map<size_t, uint64_t> region; bool open = false; std::map<size_t, uint64_t> largest; uint64_t largest_n = 0, regions = 0; uint64_t outlier_at = 0, region_n = 0;
};
static World* W;
static uint64_t Run(size_t input) {
  World& w = *W; ++w.calls; const auto it = w.cost.find(input); if (it == w.cost.end()) { w.bad_input = true; return 0; }
  uint64_t c = it->second; if (w.jitter) c += w.g.below(w.jitter + 1); if (w.drift) c += w.calls; tl_clock.now = tl_clock.now + c; if (w.open) { ++w.region[input]; ++w.region_n; } return c * 3 + 1;
}
static uint64_t Plain(const void* arg, size_t input) { if (arg != W->arg) W->bad_arg = true; return Run(input); }
static void OnRead(bool stop) {  // regions: Start .. Stop
  World& w = *W;
  if (!stop) { w.open = true; w.region.clear(); w.region_n = 0; return; }
  if (!w.open) return; w.open = false; if (w.region_n) ++w.regions; if (w.region_n > w.largest_n) { w.largest_n = w.region_n; w.largest = w.region; }
  if (w.outlier_percent && w.region_n && w.g.below(100) < uint64_t(w.outlier_percent)) tl_clock.now = tl_clock.now + 1 + w.g.below(w.outlier_max);  // interrupted
}
static std::atomic<int> g_warnings{0};
static void Measures(uint64_t seed) {
  Report& R = Rep(); World w; W = &w; w.g = Rng(seed); Rng& g = w.g; hwy::SetWarnFunc([](const char*, int, const char*) { ++g_warnings; });
  static const uint64_t steps[] = {1, 20, 24, 37, 60, 200}; static const uint64_t step = steps[g.below(6)];  // one per process: the library measures it once
  const size_t nu = 1 + g.below(5); std::vector<size_t> uniq; static const size_t special[] = {0, 1, ~size_t(0), size_t(1) << 63, 3, 1000};
  for (size_t i = 0; i < nu; ++i) { const size_t x = g.below(3) ? g.below(100) : special[g.below(6)]; if (std::find(uniq.begin(), uniq.end(), x) == uniq.end()) uniq.push_back(x); }
  // Costs from one tick to a few thousand.
  const uint64_t scale = uint64_t(1) << g.below(13); uint64_t least = ~uint64_t(0); for (size_t x : uniq) { w.cost[x] = 1 + g.below(scale * 4); if (g.below(60) == 0) w.cost[x] = 0; least = std::min(least, w.cost[x]); }
  std::vector<size_t> in; for (size_t x : uniq) in.insert(in.end(), 1 + g.below(4), x); for (size_t i = in.size(); i > 1; --i) std::swap(in[i - 1], in[g.below(i)]);
  std::map<size_t, uint64_t> freq; for (size_t x : in) ++freq[x];
  hwy::Params p; p.verbose = g.below(20) == 0; static const size_t div[] = {8, 64, 200, 1024}; p.precision_divisor = div[g.below(4)]; p.precision_divisor = std::min<size_t>(p.precision_divisor, std::max<size_t>(8, 1200 * size_t(std::max<uint64_t>(1, least)) / in.size())); p.subset_ratio = 2 + g.below(2); p.seconds_per_eval = 2E-7 * double(1 + g.below(20)); p.min_samples_per_eval = 5 + g.below(6); p.max_evals = 7 + g.below(3); if (g.below(3) == 0) p.target_rel_mad = 0.01;
  const int mode = int(g.below(8)); if (mode >= 4 && mode < 6) { w.outlier_percent = g.below(2) ? int(5 + g.below(10)) : 30; w.outlier_max = scale * 1000; } else if (mode == 6) w.jitter = 1 + scale / 500; else if (mode == 7 && g.below(3) == 0) w.drift = true;
  if (w.jitter || w.drift) p.max_evals = 2 + g.below(3);
  w.closure = g.below(2); uint8_t dummy = 0; w.arg = g.below(4) ? &dummy : nullptr;
  hwy::Result res[8]; memset(res, 0xEE, sizeof(res)); hwy::Result orig[8]; memcpy(orig, res, sizeof(res));
  const std::string what = Fmt("%zu inputs (%zu distinct), least cost %llu, timer step %llu, precision_divisor %zu, subset_ratio %zu, mode %d, %s", in.size(), uniq.size(), (unsigned long long)least, (unsigned long long)step, p.precision_divisor, p.subset_ratio, mode, w.closure ? "closure" : "function");
  tl_clock.now = g() >> (1 + g.below(20)); tl_clock.step = step; tl_clock.reads = 0; tl_clock.on_read = &OnRead; g_warnings = 0; const size_t lived = in.size(); const auto copy = in; int keep = -1;
  if (p.verbose) { fflush(stdout); keep = dup(1); if (!freopen("/dev/null", "w", stdout)) _exit(77); }
  auto lambda = [&w, &lived](size_t x) { (void)lived; return Run(x) + uint64_t(w.calls != 0); };
  ClockOn(); const size_t n = w.closure ? hwy::MeasureClosure(lambda, in.data(), in.size(), res, p) : hwy::Measure(&Plain, static_cast<const uint8_t*>(w.arg), in.data(), in.size(), res, p); ClockOff(); tl_clock.on_read = nullptr;
  if (keep >= 0) { fflush(stdout); dup2(keep, 1); close(keep); }
  hwy::SetWarnFunc(nullptr);
  R.Eval(5); R.Count("measured calls", w.calls); R.Count("timed regions", w.regions); R.See(HashBytes(seed, what.data(), what.size()));
  R.Check(!w.bad_input, "called with another input", "%s", what.c_str()); R.Check(!w.bad_arg, "called with another argument", "%s", what.c_str()); R.Check(in == copy, "inputs changed", "%s", what.c_str());
  R.Check(n == 0 || n == uniq.size(), "number of results", "%zu (%s)", n, what.c_str()); R.Check(w.calls != 0, "function never called", "%s", what.c_str());
  R.Check(!memcmp(res + uniq.size(), orig + uniq.size(), (8 - uniq.size()) * sizeof(res[0])), "wrote past the results", "%s", what.c_str());
  if (least == 0) R.Count("measurements of a free function"); else if (!w.drift && !w.jitter && !w.outlier_percent) R.Check(n == uniq.size(), "no results", "%d warnings (%s)", g_warnings.load(), what.c_str());
  if (n == 0) { R.Count("failed measurements"); return; }
  R.Count("measurements"); std::set<size_t> got; for (size_t i = 0; i < n && i < 8; ++i) got.insert(res[i].input); R.Check(got == std::set<size_t>(uniq.begin(), uniq.end()), "inputs of the results", "%s", what.c_str());
  // The inputs occur in the given proportions.
  bool prop = !w.largest.empty(); for (auto& f : freq) prop &= w.largest[f.first] * freq.begin()->second == f.second * w.largest[freq.begin()->first]; R.Check(prop || w.largest_n == 0, "distribution of inputs", "%s", what.c_str());
  for (size_t i = 0; i < n && i < 8; ++i) {
    R.Eval(); if (!w.cost.count(res[i].input)) continue; const double c = double(w.cost[res[i].input]), t = double(res[i].ticks); const bool exact = !w.jitter && !w.drift;
    if (w.drift) { R.Check(t >= 0, "negative duration", "%g (%s)", t, what.c_str()); continue; }
    double all = 0; for (size_t x : in) all += double(w.cost[x] + w.jitter);  // errors of whole regions, up to the tolerated deviation
    const double tol = exact && !w.outlier_percent ? c * 1e-5 : 4 * (p.target_rel_mad * double(p.subset_ratio) * all + double(step + 99) / 100) + double(w.jitter) * double(in.size()) * 3;
    R.Check(fabs(t - c) <= tol, exact ? (w.outlier_percent ? "duration with interruptions" : "duration") : "duration with jitter", "input %zu: %g ticks, took %g (%s)", res[i].input, t, c, what.c_str()); if (t == c) R.Count("exact durations");
    if (exact && !w.outlier_percent) R.Check(res[i].variability == 0, "variability", "%g (%s)", double(res[i].variability), what.c_str()); else R.Check(res[i].variability >= 0, "variability", "%g (%s)", double(res[i].variability), what.c_str());
  }
  if (seed % 211 == 0) R.Sample(what + Fmt(" => input %zu: %g ticks", res[0].input, double(res[0].ticks)));
}
// ---- timers
struct Cpu : CpuModel {
  uint32_t max_ext = 0, edx1 = 0, edx7 = 0; char brand[48];
  bool OsXsave() const override { return true; }
  void Get(uint32_t leaf, uint32_t, uint32_t* r) const override {
    r[0] = r[1] = r[2] = r[3] = 0;
    if (leaf == 0x80000000u) r[0] = max_ext; else if (leaf > max_ext && leaf >= 0x80000000u) return;
    if (leaf == 0) r[0] = 7; if (leaf == 0x80000001u) r[3] = edx1; if (leaf == 0x80000007u) r[3] = edx7;
    if (leaf >= 0x80000002u && leaf <= 0x80000004u) memcpy(r, brand + 16 * (leaf - 0x80000002u), 16);
  }
};
static void Cpus(uint64_t seed, double scale) {
  Report& R = Rep(); Rng g(seed * 31 + 9); hwy::SetWarnFunc([](const char*, int, const char*) { ++g_warnings; });
  for (int i = 0; i < int(3000 * scale) + 20; ++i) {
    Cpu c; static const uint32_t ext[] = {0x80000008u, 0x8000001Eu, 0x80000004u, 0x80000003u, 0x80000000u, 0, 0x80000007u}; c.max_ext = ext[g.below(7)]; c.edx1 = uint32_t(g()); c.edx7 = uint32_t(g());
    const size_t len = g.below(49); for (size_t k = 0; k < 48; ++k) c.brand[k] = k < len ? char(33 + g.below(90)) : 0; std::string brand(c.brand, len);
    char buf[116]; memset(buf, 0x55, sizeof(buf)); const bool has = c.max_ext >= 0x80000004u; const bool rdtscp = c.max_ext >= 0x80000001u && (c.edx1 >> 27 & 1);
    const bool r = Stepped(&c, nullptr, [&] { return hwy::platform::GetCpuString(buf + 8); }); bool past = false; for (int k = 0; k < 8; ++k) past |= buf[k] != 0x55 || buf[108 + k] != 0x55;
    R.Eval(2); R.See(HashBytes(seed, c.brand, 48)); R.Check(tl_step.cpuids != 0, "no CPUID executed", "GetCpuString"); R.Check(!past, "GetCpuString wrote past 100 characters", "max leaf %x", c.max_ext);
    R.Check(r == has && (!r || brand == std::string(buf + 8, strnlen(buf + 8, 100))), "GetCpuString", "returned %d '%.100s', want %d '%s'", r, buf + 8, has, brand.c_str());
    memset(buf, 0x55, sizeof(buf)); g_warnings = 0; const bool h = Stepped(&c, nullptr, [&] { return hwy::platform::HaveTimerStop(buf + 8); }); past = false; for (int k = 0; k < 8; ++k) past |= buf[k] != 0x55 || buf[108 + k] != 0x55;
    R.Check(!past && memchr(buf + 8, 0, 100), "HaveTimerStop wrote past 100 characters", "max leaf %x", c.max_ext);
    R.Check(h == rdtscp, "HaveTimerStop", "returned %d, want %d", h, rdtscp); if (!h && has) R.Check(!strcmp(buf + 8, brand.c_str()), "HaveTimerStop names the CPU", "'%.100s', want '%s'", buf + 8, brand.c_str());
  }
  hwy::SetWarnFunc(nullptr);
}
static uint64_t Mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return uint64_t(t.tv_sec) * 1000000000ull + uint64_t(t.tv_nsec); }
static void Resolution(uint64_t seed) {
  Report& R = Rep(); Rng g(seed); static uint64_t percent; static Rng* pg; pg = &g; percent = g.below(3) ? 0 : 5 + g.below(15); const uint64_t step = 1 + g.below(300);
  tl_clock.now = g(); tl_clock.step = step; tl_clock.reads = 0; static uint64_t base, slow; base = step; slow = g.below(2) ? (131072 / 100) * (5 + g.below(20)) : 0;  // a slower stretch at the start
  tl_clock.on_read = [](bool) { tl_clock.step = tl_clock.reads < slow ? base * 3 : base; if (percent && pg->below(100) < percent) tl_clock.now = tl_clock.now + 1 + pg->below(100000); };
  ClockOn(); const uint64_t res = hwy::platform::TimerResolution(); ClockOff(); tl_clock.on_read = nullptr; R.Eval(); R.See(Mix(seed, step)); R.Count("clock reads by TimerResolution", tl_clock.reads);
  R.Check(res == step, "TimerResolution", "%llu, each reading takes %llu (interrupted %llu%%)", (unsigned long long)res, (unsigned long long)step, (unsigned long long)percent);
}
static void Clock(uint64_t seed, double scale) {
  Report& R = Rep(); Rng g(seed + 5); const double freq = hwy::platform::InvariantTicksPerSecond(); R.Eval(); R.Check(freq > 0 && freq == hwy::platform::InvariantTicksPerSecond(), "InvariantTicksPerSecond changes", "%g", freq);
  // Rate: compared with the system clock over a longer interval.
  const uint64_t m0 = Mono(), t0 = hwy::timer::Start(); const double n0 = hwy::platform::Now(); const hwy::Timestamp ts0; usleep(300000); const uint64_t t1 = hwy::timer::Stop(); const double n1 = hwy::platform::Now(), since = hwy::SecondsSince(ts0); const uint64_t m1 = Mono();
  const double sec = double(m1 - m0) * 1e-9, rate = double(t1 - t0) / sec; R.Check(freq >= rate * 0.9 && freq <= rate * 5, "InvariantTicksPerSecond", "%g, measured %g", freq, rate); R.Check(n1 - n0 <= sec * 1.15 && n1 - n0 >= 0.02, "Now", "advanced %g s in %g s", n1 - n0, sec); R.Check(since <= sec * 1.15 && since >= 0.02, "SecondsSince", "%g s in %g s", since, sec); R.Eval(3);
  std::vector<std::thread> th; std::atomic<uint64_t> bits{0}; std::atomic<bool> back{false}; const int n = int(300000 * scale) + 1000;
  for (int t = 0; t < std::max(2, R.threads); ++t) th.emplace_back([&] { double last = 0; uint64_t lt = 0; for (int i = 0; i < n; ++i) { const double x = hwy::platform::Now(); const uint64_t a = hwy::timer::Start(), b = hwy::timer::Stop(); if (x < last || a < lt || b < a) back = true; last = x; lt = b; } bits += uint64_t(n); });
  for (auto& t : th) t.join(); R.Eval(bits.load()); R.Check(!back, "time went backwards on a thread", "Now/Start/Stop");
  // Scripted: seconds follow the ticks exactly, also across large values.
  for (int i = 0; i < int(2000 * scale) + 50; ++i) {
    tl_clock.step = 0; tl_clock.on_read = nullptr; const uint64_t a = g() >> g.below(50), b = a + (g() >> (14 + g.below(50))); tl_clock.now = a; ClockOn(); const double x = hwy::platform::Now(); const hwy::Timestamp s; const uint64_t ta = hwy::timer::Start(); tl_clock.now = b; const double y = hwy::platform::Now(), d = hwy::SecondsSince(s); const uint64_t tb = hwy::timer::Stop(); ClockOff();
    R.Eval(3); R.See(Mix(a, b)); R.Check(ta == a && tb == b, "Start/Stop", "%llx %llx, clock %llx %llx", (unsigned long long)ta, (unsigned long long)tb, (unsigned long long)a, (unsigned long long)b);
    const double eps = double(b) / freq * 1e-15 * 4 + 1e-18; if (b >= a) R.Check(fabs(x - double(a) / freq) <= eps && fabs(y - double(b) / freq) <= eps && y >= x && fabs(d - (y - x)) <= eps, "Now follows the ticks", "%.17g %.17g for ticks %llu %llu at %g/s", x, y, (unsigned long long)a, (unsigned long long)b, freq);
  }
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); WatchAborts(); InstallTrap(); const double scale = (getenv("VT_SCALE") ? atof(getenv("VT_SCALE")) : 1.0) * (R.thorough ? 10 : 1);
  if (!ScriptClock()) { fprintf(stderr, "inconclusive: cannot trap RDTSC\n"); return 2; }
  (void)hwy::platform::InvariantTicksPerSecond(); Rng g(R.seed * 131 + 17); Children kids(std::max(1, R.threads), 300);
  if (const char* one = getenv("VT_ONE")) { Measures(strtoull(one, nullptr, 10)); return R.Write(); }
  if (R.Want("timers")) {
    kids.Start("simulated CPUs", [&] { Cpus(R.seed, scale); });
    for (int i = 0; i < int(12 * scale) + 3; ++i) { const uint64_t s = g(); kids.Start("TimerResolution", [=] { Resolution(s); }); }
    kids.Wait(); Clock(R.seed, scale);
  }
  if (R.Want("measure")) for (int i = 0; i < int(60 * scale) + 8; ++i) {
    const uint64_t s = g(); kids.Start(Fmt("Measure| seed %llu", (unsigned long long)s), [=] { for (uint64_t k = 0; k < 10; ++k) { Measures(s + k * 7919); } });
  }
  kids.Wait(); return R.Write();
}
