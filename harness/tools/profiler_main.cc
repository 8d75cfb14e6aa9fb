// P29: profiler zones under a scripted clock.
#include <errno.h>
#include <sys/mman.h>
#include <cmath>
#include <thread>
#include "tools/profiler.h"
#include "common/aborts.h"
#include "common/child.h"
#include "common/vclock.h"
namespace vt {
constexpr uint64_t kSlack = 200000;  // ticks of observer overhead per zone that the profiler may deduct
struct Entry { uint64_t calls = 0, children = 0; double total = 0; bool timed = true; };
using Tally = std::map<std::string, Entry>;
struct Ctx { Rng g{1}; Tally tally; std::vector<Entry*> stack; uint64_t zones = 0, limit = 0, budget = 0; int max_depth = 8, fan = 3, names = 10, pause = 2; bool real = false; uint64_t shape = 0; };
static thread_local Ctx* tl_ctx;
// The model's view of the zone that just opened.
void ModelEnter(const char* name) { Ctx& c = *tl_ctx; Entry& e = c.tally[name]; ++e.calls; if (!c.stack.empty()) ++c.stack.back()->children; c.stack.push_back(&e); ++c.zones; c.shape = Mix(c.shape, HashBytes(1, name, strlen(name))); }
void ModelExit() { tl_ctx->stack.pop_back(); tl_ctx->shape = Mix(tl_ctx->shape, 7); }
#define Z1(NAME, ID) static void Fn##ID() { PROFILER_ZONE(NAME); Scope s(NAME); Body(); }
#define Z10(P, ID) Z1(P "0", ID##0) Z1(P "1", ID##1) Z1(P "2", ID##2) Z1(P "3", ID##3) Z1(P "4", ID##4) Z1(P "5", ID##5) Z1(P "6", ID##6) Z1(P "7", ID##7) Z1(P "8", ID##8) Z1(P "9", ID##9)
#define L10(ID) &Fn##ID##0, &Fn##ID##1, &Fn##ID##2, &Fn##ID##3, &Fn##ID##4, &Fn##ID##5, &Fn##ID##6, &Fn##ID##7, &Fn##ID##8, &Fn##ID##9
Z10("z", 0) Z10("zone with spaces : x = ", 1) Z10("100%d %s %n", 2) Z10("a name that is longer than the forty columns the report reserves for it ", 3) Z10("q", 4) Z10("zz", 5) Z10("k1", 6) Z10("k2", 7) Z10("k3", 8) Z10("k4", 9) Z10("k5", 10) Z10("k6", 11) Z10("k7", 12) Z10("k8", 13) Z10("k9", 14) Z10("ka", 15) Z10("kb", 16) Z10("kc", 17) Z10("kd", 18) Z10("ke", 19) Z10("kf", 20) Z10("kg", 21)
static Fn kFns[] = {L10(0), L10(1), L10(2), L10(3), L10(4), L10(5), L10(6), L10(7), L10(8), L10(9), L10(10), L10(11), L10(12), L10(13), L10(14), L10(15), L10(16), L10(17), L10(18), L10(19), L10(20), L10(21)};
// Functions with the same name: one line in the report.
template <int N> HWY_NOINLINE void SameName() { PROFILER_FUNC; Scope s("SameName"); asm volatile("" ::"i"(N)); Body(); }
template <class T> HWY_NOINLINE void Other(T) { PROFILER_FUNC; Scope s("Other"); Body(); }
namespace a { HWY_NOINLINE static void Work() { PROFILER_FUNC; Scope s("Work"); Body(); } }
namespace b { HWY_NOINLINE static void Work() { PROFILER_FUNC; Scope s("Work"); Body(); } }
static void O1() { Other(1); } static void O2() { Other(2.0); } static void O3() { Other('c'); }
static Fn kDup[] = {&SameName<0>, &a::Work, &O1, &SameName<1>, &b::Work, &O2, &SameName<2>, &O3, &SameName<3>, &SameName<4>};
static Fn Pick(Ctx& c) {
  const uint64_t k = c.g.below(uint64_t(c.names)); if (c.names == 1 || c.g.below(4)) return kFns[k % (sizeof(kFns) / sizeof(kFns[0]))];
  Fn* from = k % 3 == 0 ? kUnit1 : k % 3 == 1 ? kUnit2 : kDup; return from[c.g.below(c.names < 10 ? uint64_t(c.names) : 10)];
}
static void Pause(Ctx& c) {
  if (c.real || c.g.below(uint64_t(c.pause))) return;
  const uint64_t w = c.g.below(5) == 0 ? c.g.below(1000) : (uint64_t(1) << (27 + c.g.below(6))) + c.g.below(1000000);
  if (w > c.budget) return;
  c.budget -= w; tl_clock.now = tl_clock.now + w; if (!c.stack.empty()) c.stack.back()->total += double(w);
}
void Body() {
  Ctx& c = *tl_ctx; Pause(c);
  if (int(c.stack.size()) < c.max_depth) {
    const uint64_t n = c.fan < 0 ? 1 : c.g.below(uint64_t(c.fan) + 1);
    for (uint64_t i = 0; i < n && c.zones < c.limit; ++i) { Pick(c)(); Pause(c); }
  }
}
static void Warm() { Ctx& c = *tl_ctx; PROFILER_ZONE("first zone of the thread"); Entry& e = c.tally["first zone of the thread"]; ++e.calls; e.timed = false; }
static void RunThread(Ctx& c, bool warm, bool scripted) {
  tl_ctx = &c; if (warm) Warm();
  if (scripted) {
    static const uint64_t starts[] = {1000000, (uint64_t(1) << 39) - (uint64_t(1) << 30), (uint64_t(1) << 63) - (uint64_t(1) << 31), ~uint64_t(0) - (uint64_t(1) << 32), 0x123456789ABCDEull};
    tl_clock.step = 0; tl_clock.on_read = nullptr; tl_clock.now = starts[c.g.below(5)] + c.g.below(1 << 20); ClockOn();
  } else c.real = true;
  while (c.zones < c.limit) { c.budget = uint64_t(1) << 38; Pick(c)(); }
  if (scripted) ClockOff();
}
struct Line { std::string name; uint64_t calls; double avg, seconds; };
static std::string Capture(void (*f)()) {
  fflush(stdout); const int keep = dup(1), m = memfd_create("out", 0); if (m < 0) _exit(77); dup2(m, 1); f(); fflush(stdout); dup2(keep, 1); close(keep);
  std::string s; char buf[65536]; lseek(m, 0, SEEK_SET); ssize_t n; while ((n = read(m, buf, sizeof(buf))) > 0) s.append(buf, size_t(n)); close(m); return s;
}
static void Judge(const std::string& out, std::vector<Ctx*> ctxs, const std::string& what) {
  Report& R = Rep(); Tally want; for (Ctx* c : ctxs) for (auto& kv : c->tally) { Entry& e = want[kv.first]; e.calls += kv.second.calls; e.children += kv.second.children; e.total += kv.second.total; e.timed &= kv.second.timed && !c->real; }
  std::vector<Line> lines; size_t at = 0; bool total = false;
  while (at < out.size()) {
    size_t e = out.find('\n', at); if (e == std::string::npos) e = out.size(); const std::string l = out.substr(at, e - at); at = e + 1;
    if (l.compare(0, 14, "Total analysis") == 0) { total = true; continue; }
    // "name : calls x average = seconds"; names may contain separators, so parse from the right.
    const size_t eq = l.rfind(" = "), x = l.rfind(" x ", eq == std::string::npos ? eq : eq - 1), colon = x == std::string::npos ? x : l.rfind(':', x);
    if (eq == std::string::npos || x == std::string::npos || colon == std::string::npos) { R.Viol("unreadable line", l + " (" + what + ")"); continue; }
    Line n; n.name = l.substr(0, colon); while (!n.name.empty() && n.name.back() == ' ') n.name.pop_back();
    n.calls = strtoull(l.c_str() + colon + 1, nullptr, 10); n.avg = strtod(l.c_str() + x + 3, nullptr); n.seconds = strtod(l.c_str() + eq + 3, nullptr); lines.push_back(n);
  }
  (void)total; std::set<std::string> seen; const double freq = hwy::platform::InvariantTicksPerSecond();
  for (size_t i = 0; i < lines.size(); ++i) {
    const Line& l = lines[i]; R.Eval(); const auto it = want.find(l.name);
    if (it == want.end()) { R.Viol("unknown zone", l.name + " (" + what + ")"); continue; }
    const Entry& e = it->second;
    R.Check(seen.insert(l.name).second, "zone listed twice", "%s (%s)", l.name.c_str(), what.c_str());
    R.Check(l.calls == e.calls, "call count", "%s: %llu calls reported, %llu made (%s)", l.name.c_str(), (unsigned long long)l.calls, (unsigned long long)e.calls, what.c_str());
    if (e.timed && l.calls == e.calls) {
      const double hi = e.total / double(e.calls), lo = (e.total - double(kSlack) * double(e.calls + e.children)) / double(e.calls);
      R.Check(l.avg <= hi + 1 && l.avg >= lo - 1, "average self time", "%s: %.0f ticks reported, %.0f spent (at least %.0f) in %llu calls (%s)", l.name.c_str(), l.avg, hi, lo, (unsigned long long)e.calls, what.c_str());
    }
    const double sec = l.avg * double(l.calls) / freq; R.Check(std::fabs(sec - l.seconds) <= 1e-6 + 0.51 * double(l.calls) / freq + sec * 1e-9, "total in seconds", "%s: %.6f, want %.6f (%s)", l.name.c_str(), l.seconds, sec, what.c_str());
    if (i) R.Check(lines[i - 1].seconds >= l.seconds, "not sorted by total time", "%.6f before %.6f (%s)", lines[i - 1].seconds, l.seconds, what.c_str());
  }
  for (auto& kv : want) { R.Eval(); R.Check(seen.count(kv.first) != 0, "zone missing", "%s with %llu calls (%s)", kv.first.c_str(), (unsigned long long)kv.second.calls, what.c_str()); }
  for (Ctx* c : ctxs) { R.See(c->shape); R.Count("zones entered", c->zones); R.Max("most zones of a thread", c->zones); }
}
static void Fill(Ctx& c, Rng& g, uint64_t limit) { c.g = Rng(g()); c.limit = limit; static const int names[] = {1, 2, 3, 8, 30, 220}; c.names = names[g.below(6)]; static const int depth[] = {1, 2, 5, 20, 64}; c.max_depth = depth[g.below(5)]; c.fan = g.below(4) ? int(1 + g.below(6)) : -1; c.pause = 1 + int(g.below(4)); }
static std::string Desc(const std::vector<Ctx*>& cs) { std::string s = Fmt("%zu threads;", cs.size()); for (Ctx* c : cs) s += Fmt(" [%llu zones, %d names, depth %d, fan %d]", (unsigned long long)c->zones, c->names, c->max_depth, c->fan); return s; }
static void Scenario(uint64_t seed, size_t threads, uint64_t limit, bool main_warm, bool scripted) {
  Rng g(seed); std::vector<Ctx*> cs; for (size_t i = 0; i < threads; ++i) { cs.push_back(new Ctx); Fill(*cs[i], g, i == 0 || limit > 5000 ? limit : g.below(limit + 1)); }
  if (main_warm) { Entry& e = cs[0]->tally["first zone of the thread"]; ++e.calls; e.timed = false; }
  std::vector<std::thread> ts; for (size_t i = 1; i < threads; ++i) ts.emplace_back([&, i] { RunThread(*cs[i], true, scripted); });
  RunThread(*cs[0], !main_warm, scripted); for (auto& t : ts) t.join();
  const std::string out = Capture([] { PROFILER_PRINT_RESULTS(); }); Judge(out, cs, Desc(cs));
  if (threads > 1) Rep().Count("multi-threaded scenarios"); if (limit > 5000) Rep().Count("scenarios that fill the packet storage"); if (seed % 97 == 0) Rep().Sample(Desc(cs) + " => " + out.substr(0, 200));
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); WatchAborts(); const double scale = (getenv("VT_SCALE") ? atof(getenv("VT_SCALE")) : 1.0) * (R.thorough ? 8 : 1); const bool scripted = !getenv("VT_REAL");
  if (scripted && !ScriptClock()) { fprintf(stderr, "inconclusive: cannot trap RDTSC\n"); return 2; }
  (void)hwy::platform::InvariantTicksPerSecond(); Rng g(R.seed * 1315423911u + 5); Children kids(std::max(1, R.threads));
  if (const char* one = getenv("VT_ONE")) { Ctx warm; tl_ctx = &warm; Warm(); const uint64_t s = strtoull(one, nullptr, 10); Scenario(s, 1, strtoull(getenv("VT_LIMIT"), nullptr, 10), true, scripted); return R.Write(); }
  kids.Start("report without any zone", [] { const std::string out = Capture([] { PROFILER_PRINT_RESULTS(); }); Rep().Eval(); Rep().Check(out.find(" x ") == std::string::npos, "report without any zone", "%s", out.c_str()); });
  for (int i = 0; i < int(40 * scale) + 6; ++i) { const uint64_t s = g(), t = 2 + g.below(5), l = i % 8 == 3 ? 60000 + g.below(8000) : 1 + g.below(600); kids.Start("zones on several threads|" + Fmt(" seed %llu limit %llu", (unsigned long long)s, (unsigned long long)l), [=] { Scenario(s, t, l, false, scripted); }); }
  kids.Wait();
  Ctx warm; tl_ctx = &warm; Warm();  // children inherit the calibrated main thread
  for (int i = 0; i < int(4000 * scale) + 20; ++i) { const uint64_t s = g(), l = i % 400 == 7 ? 65536 - 20 + g.below(40) : i % 400 == 9 ? 131072 + 65536 * g.below(2) - 20 + g.below(40) : 1 + g.below(i % 3 ? 40 : 1200); kids.Start("zones|" + Fmt(" seed %llu limit %llu", (unsigned long long)s, (unsigned long long)l), [=] { Scenario(s, 1, l, true, scripted); }); }
  // Every alignment of the last packet to the end of the storage.
  for (uint64_t fills = 1; fills <= (R.thorough ? 3 : 1); ++fills) for (uint64_t l = 65536 * fills - 18; l < 65536 * fills + 10; ++l) { const uint64_t s = g(); if (scripted) kids.Start("storage almost full|" + Fmt(" seed %llu limit %llu", (unsigned long long)s, (unsigned long long)l), [=] { Scenario(s, 1, l, true, scripted); Rep().Count("scenarios that end at the end of the storage"); }); }
  kids.Wait(); return R.Write();
}
