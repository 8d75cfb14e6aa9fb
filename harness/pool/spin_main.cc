// P27: spin and futex waits. No lost wake-ups, the returned value differs from
// |prev| and was really stored, data published before the store is visible.
// The AMD/Intel user-mode monitor/wait instructions are not available on every
// CPU, so their intrinsics are replaced by an emulation of what the hardware
// does: MONITOR arms on an address, WAIT sleeps until that address is written
// after arming (here: until its value differs from the armed one).
#include <signal.h>
#include <errno.h>
#include <immintrin.h>
#include <x86intrin.h>
#include <cpuid.h>
#include "../common/report.h"
#include "../common/watch.h"
#include "chaos_atomic.h"
#include <functional>
#include <cstdio>
namespace vt {
struct Armed { const std::atomic<uint32_t>* addr = nullptr; uint32_t value = 0; };
static thread_local Armed tl_armed;
static std::atomic<uint64_t> g_monitors{0}, g_waits{0}, g_sleeps{0};
static void EmuMonitor(const void* a) {
  tl_armed.addr = static_cast<const std::atomic<uint32_t>*>(a);
  tl_armed.value = tl_armed.addr->load(std::memory_order_relaxed);
  g_monitors.fetch_add(1, std::memory_order_relaxed);
}
static void (*g_wait_hook)(const void*) = nullptr;  // scripted mode
static void EmuWait() {
  g_waits.fetch_add(1, std::memory_order_relaxed);
  if (!tl_armed.addr) return;  // WAIT without MONITOR does not wait
  bool slept = false;
  uint32_t n = 0;
  while (tl_armed.addr->load(std::memory_order_relaxed) == tl_armed.value) { slept = true; if (g_wait_hook) { g_wait_hook(tl_armed.addr); continue; } if (++n % 64 == 0) { timespec t{0, 20000}; nanosleep(&t, nullptr); } else sched_yield(); }
  tl_armed.addr = nullptr;
  g_sleeps.fetch_add(slept, std::memory_order_relaxed);
}
}  // namespace vt
#define HWY_ENABLE_SPIN_ASM 0
#define _mm_monitorx(a, e, h) vt::EmuMonitor(a)
#define _mm_mwaitx(e, h, c) vt::EmuWait()
#define _umonitor(a) vt::EmuMonitor(a)
#define _umwait(c, d) vt::EmuWait()
#define atomic chaos_atomic
#include "hwy/contrib/thread_pool/futex.h"
#include "hwy/contrib/thread_pool/spin.h"
#undef atomic
namespace vt {
using A32 = std::chaos_atomic<uint32_t>;
constexpr auto kRlx = std::memory_order_relaxed;
constexpr auto kAcq = std::memory_order_acquire;
constexpr auto kRel = std::memory_order_release;
static std::atomic<uint64_t> g_wakes{0}, g_signals{0}, g_already{0};
struct Padded { A32 v{0}; char pad[124]; };
struct FutexWait {
  static constexpr const char* kName = "BlockUntilDifferent";
  uint32_t Different(uint32_t prev, const A32& w) const { return hwy::BlockUntilDifferent(prev, w); }
  void Equal(uint32_t e, const A32& w) const { for (;;) { const uint32_t c = w.load(kAcq); if (c == e) return; hwy::BlockUntilDifferent(c, w); } }
  void Wake(A32& w) const { hwy::WakeAll(w); }
};
template <class S> struct SpinWait {
  S s;
  uint32_t Different(uint32_t prev, const A32& w) const { return s.UntilDifferent(prev, w).current; }
  void Equal(uint32_t e, const A32& w) const { (void)s.UntilEqual(e, w); }
  void Wake(A32&) const {}
};
// |kinds| values published in a row by one writer; every reader must see each
// change in turn (writer waits for acknowledgements) and the data behind it.
template <class W> void Broadcast(const char* name, const W& w, int readers, int rounds, uint64_t seed, bool equal, bool signals) {
  Report& R = Rep();
  auto* var = new Padded; auto* ack = new Padded[size_t(readers)];
  std::vector<uint64_t> data(size_t(rounds) + 2, 0);
  Rng g(seed);
  std::vector<uint32_t> seq{uint32_t(g())};
  // Values: any 32-bit pattern, sign bit, wraparound, neighbours.
  for (int i = 0; i < rounds; ++i) {
    uint32_t n;
    do { switch (g.below(6)) { case 0: n = seq.back() + 1; break; case 1: n = seq.back() - 1; break; case 2: n = ~seq.back(); break; case 3: n = seq.back() ^ (1u << g.below(32)); break; case 4: n = uint32_t(g.below(3)) * 0x7FFFFFFFu; break; default: n = uint32_t(g()); } } while (n == seq.back());
    seq.push_back(n);
  }
  var->v.store(seq[0], kRel);
  for (int r = 0; r < readers; ++r) ack[r].v.store(0, kRlx);
  std::vector<std::thread> th;
  std::atomic<bool> stop{false};
  for (int r = 0; r < readers; ++r) th.emplace_back([&, r] {
    Rng q(seed + uint64_t(r) + 1);
    for (size_t i = 1; i < seq.size(); ++i) {
      Watched wd("%s|%s readers=%d round=%zu seed=%llu", name, equal ? "UntilEqual" : "UntilDifferent", readers, i, (unsigned long long)seed);
      if (q.below(3) == 0) for (uint64_t k = q.below(3000); k--;) asm volatile("");
      if (equal) w.Equal(seq[i], var->v);
      else {
        if (var->v.load(kRlx) != seq[i - 1]) g_already.fetch_add(1, kRlx);
        const uint32_t got = w.Different(seq[i - 1], var->v);
        if (!R.Check(got == seq[i], std::string(name) + "/wrong-value", "prev=%u got %u stored %u", seq[i - 1], got, seq[i])) R.Finish();
      }
      g_wakes.fetch_add(1, kRlx);
      // Plain data published before the store.
      R.Check(data[i] == Mix(seed, i), std::string(name) + "/stale-data", "round %zu", i);
      R.Eval();
      ack[r].v.store(uint32_t(i), kRel);
      w.Wake(ack[r].v);
    }
  });
  std::thread sig;
  if (signals) sig = std::thread([&] { Rng q(seed); while (!stop.load()) { timespec t{0, long(q.below(300000))}; nanosleep(&t, nullptr); for (auto& t2 : th) { pthread_kill(t2.native_handle(), SIGUSR1); g_signals.fetch_add(1, kRlx); } } });
  for (size_t i = 1; i < seq.size(); ++i) {
    Watched wd("%s|writer %s readers=%d round=%zu seed=%llu", name, equal ? "UntilEqual" : "UntilDifferent", readers, i, (unsigned long long)seed);
    data[i] = Mix(seed, i);
    if (g.below(4) == 0) { timespec t{0, long(g.below(60000))}; nanosleep(&t, nullptr); }
    var->v.store(seq[i], kRel);
    w.Wake(var->v);
    for (int r = 0; r < readers; ++r) w.Equal(uint32_t(i), ack[r].v);
  }
  R.See(Mix(Mix(seed, Chaos::Trace().load(kRlx)), uint64_t(readers)));
  stop = true;
  if (signals) sig.join();
  for (auto& t : th) t.join();
  R.Count(std::string("rounds ") + name, uint64_t(rounds));
  delete var; delete[] ack;
}
template <class W> void All(const char* name, const W& w, uint64_t seed, int rounds, bool signals) {
  for (int lvl = 0; lvl <= 3; ++lvl) {
    Chaos::Level() = lvl;
    for (int readers : {1, 2, 5}) for (bool eq : {false, true}) Broadcast(name, w, readers, std::max(5, rounds / readers / (lvl == 3 ? 4 : 1)), Mix(seed, uint64_t(lvl * 100 + readers * 2 + eq)), eq, signals && lvl < 3);
  }
  Chaos::Level() = 0;
}
// Single-threaded: a script changes the watched value between any two accesses
// of the wait, including changes back to the old value.
struct Script {
  std::chaos_atomic<uint32_t> var{0};
  Rng g{1};
  uint32_t values[4]; int num = 2;
  uint64_t accesses = 0; uint32_t change_1_in = 2; uint32_t watch_for = 0; bool reached = false; bool differed = false; uint32_t prev = 0;
  uint64_t seen[4];
};
static Script* g_script = nullptr;
static std::atomic<uint64_t> g_scripted{0}, g_aba{0};
static void ScriptHook(const void* a) {
  Script& s = *g_script;
  std::atomic<uint32_t>& v = s.var;
  if (a != &s.var) return;
  // After many accesses, stay at a value that satisfies the wait.
  if (++s.accesses > 2000) v.store(s.values[1], kRlx);
  else if (s.g.below(s.change_1_in) == 0) { const int k = int(s.g.below(uint64_t(s.num))); if (k == 0 && s.differed) g_aba.fetch_add(1, kRlx); v.store(s.values[k], kRlx); }
  const uint32_t now = v.load(kRlx);
  for (int k = 0; k < s.num; ++k) if (s.values[k] == now) s.seen[k] = s.accesses;
  if (now == s.values[1]) s.reached = true;
  if (now != s.values[0]) s.differed = true;
}
template <class W> void Scripted(const char* name, const W& w, uint64_t seed, int n) {
  Report& R = Rep(); Rng g(seed);
  Script s; g_script = &s; g_wait_hook = ScriptHook;
  for (int i = 0; i < n; ++i) {
    s.g = Rng(Mix(seed, uint64_t(i))); s.num = 2 + int(g.below(3)); s.change_1_in = 1 + uint32_t(g.below(6));
    for (int k = 0; k < 4; ++k) { bool dup; do { s.values[k] = g.below(2) ? uint32_t(g()) : uint32_t(g.below(3)) - 1; dup = false; for (int j = 0; j < k; ++j) dup |= s.values[j] == s.values[k]; } while (dup); s.seen[k] = 0; }
    s.accesses = 0; s.reached = s.differed = false;
    static_cast<std::atomic<uint32_t>&>(s.var).store(s.values[g.below(3) == 0 ? size_t(g.below(uint64_t(s.num))) : 0], kRlx);
    const bool eq = g.below(2);
    Watched wd("%s|scripted %s case %d seed=%llu", name, eq ? "UntilEqual" : "UntilDifferent", i, (unsigned long long)seed);
    Chaos::LoadHook() = ScriptHook;
    uint32_t got = 0;
    if (eq) w.Equal(s.values[1], s.var); else got = w.Different(s.values[0], s.var);
    Chaos::LoadHook() = nullptr;
    R.Eval(); g_scripted.fetch_add(1, kRlx); R.See(Mix(Mix(21, s.accesses), uint64_t(s.num * 2 + eq)));
    if (eq) R.Check(s.reached, std::string(name) + "/returned-early", "UntilEqual returned although the value was never there, case %d", i);
    else {
      R.Check(got != s.values[0], std::string(name) + "/returned-old-value", "UntilDifferent(%u) returned it, case %d after %llu accesses", s.values[0], i, (unsigned long long)s.accesses);
      bool stored = false;
      for (int k = 0; k < s.num; ++k) stored |= s.values[k] == got && s.seen[k] != 0;
      R.Check(stored, std::string(name) + "/value-never-stored", "got %u, case %d", got, i);
    }
    R.Check(s.accesses <= 2100, std::string(name) + "/late", "%llu accesses although the condition held", (unsigned long long)s.accesses);
  }
  g_wait_hook = nullptr; g_script = nullptr;
}
// A writer keeps changing between few values, so that waits may miss changes
// and see the old value again; what they return must still differ from it.
template <class W> void Toggle(const char* name, const W& w, uint64_t seed, int waits) {
  Report& R = Rep();
  Padded var; std::atomic<int> done{0}; const uint32_t vals[3] = {uint32_t(seed), uint32_t(seed) + 1, ~uint32_t(seed)};
  static_cast<std::atomic<uint32_t>&>(var.v).store(vals[0]);
  std::vector<std::thread> th;
  for (int r = 0; r < 2; ++r) th.emplace_back([&, r] {
    Rng q(seed + uint64_t(r));
    for (int i = 0; i < waits; ++i) {
      Watched wd("%s|toggle UntilDifferent wait=%d seed=%llu", name, i, (unsigned long long)seed);
      const uint32_t prev = vals[q.below(3)];
      const uint32_t got = w.Different(prev, var.v);
      R.Eval();
      R.Check(got != prev, std::string(name) + "/returned-old-value", "toggle: prev=%u", prev);
      R.Check(got == vals[0] || got == vals[1] || got == vals[2], std::string(name) + "/value-never-stored", "toggle: got %u", got);
    }
    ++done;
  });
  Rng g(seed ^ 77);
  while (done.load() < 2) {
    var.v.store(vals[g.below(3)], kRel); w.Wake(var.v);
    for (uint64_t k = g.below(400); k--;) asm volatile("");
    if (g.below(64) == 0) sched_yield();
  }
  for (auto& t : th) t.join();
  R.Count(std::string("toggle waits ") + name, uint64_t(waits) * 2);
}
static void Handler(int) {}
static void Sleep(uint64_t seed) {
  Report& R = Rep(); Rng g(seed);
  for (int i = 0; i < 60; ++i) {
    static const uint64_t kNs[] = {0, 1, 999, 1000, 1001, 50000, 999999, 1000000, 1000001, 999999999, 1000000000, 1000000001, 1200000000};
    const uint64_t ns = i < 13 ? kNs[i] : g.below(3000000);
    const uint64_t t0 = NowNs(); const bool ok = hwy::NanoSleep(ns); const uint64_t dt = NowNs() - t0;
    R.Eval(); R.See(Mix(5, ns));
    R.Check(ok, "NanoSleep/failed", "%llu", (unsigned long long)ns);
    R.Check(dt >= ns, "NanoSleep/too-short", "asked %llu slept %llu", (unsigned long long)ns, (unsigned long long)dt);
  }
  // One interruption does not shorten it.
  for (int i = 0; i < 6; ++i) {
    const pthread_t me = pthread_self();
    std::thread t([&] { timespec s{0, 2000000}; nanosleep(&s, nullptr); pthread_kill(me, SIGUSR1); });
    const uint64_t t0 = NowNs(); hwy::NanoSleep(20000000); const uint64_t dt = NowNs() - t0;
    t.join(); R.Eval();
    R.Check(dt >= 20000000, "NanoSleep/interrupted-too-short", "slept %llu of 20000000", (unsigned long long)dt);
  }
}
static void Detect() {
  Report& R = Rep();
  uint32_t a, b, c, d; char vendor[13] = {0};
  __get_cpuid(0, &a, &b, &c, &d); const uint32_t maxl = a; memcpy(vendor, &b, 4); memcpy(vendor + 4, &d, 4); memcpy(vendor + 8, &c, 4);
  bool mwx = false, wp = false;
  if (__get_cpuid(0x80000001u, &a, &b, &c, &d)) mwx = ((c >> 29) & 1) && !strcmp(vendor, "AuthenticAMD");
  if (maxl >= 7 && __get_cpuid_count(7, 0, &a, &b, &c, &d)) wp = (c >> 5) & 1;
  for (int dis = 0; dis < 16; ++dis) {
    const hwy::SpinType t = hwy::DetectSpin(dis);
    auto off = [&](hwy::SpinType s) { return (dis >> int(s)) & 1; };
    const hwy::SpinType want = (mwx && !off(hwy::SpinType::kMonitorX)) ? hwy::SpinType::kMonitorX : (wp && !off(hwy::SpinType::kUMonitor)) ? hwy::SpinType::kUMonitor : hwy::SpinType::kPause;
    R.Eval(); R.See(Mix(9, uint64_t(dis)));
    R.Check(t == want, "DetectSpin/wrong", "disabled=%d got %d want %d", dis, int(t), int(want));
    hwy::CallWithSpin(t, [&](auto s) { R.Check(s.Type() == t, "CallWithSpin/wrong-type", "%d", int(t)); });
  }
  for (auto t : {hwy::SpinType::kMonitorX, hwy::SpinType::kUMonitor, hwy::SpinType::kPause}) {
    int n = 0; hwy::CallWithSpin(t, [&](auto s) { ++n; R.Check(s.Type() == t, "CallWithSpin/wrong-type", "%d", int(t)); });
    R.Check(n == 1, "CallWithSpin/calls", "%d", n); R.Check(hwy::ToString(t) != nullptr, "SpinType/ToString", "%d", int(t));
  }
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); StartWatchdog(60);
  struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = Handler; sigaction(SIGUSR1, &sa, nullptr);  // no SA_RESTART
  const double scale = (getenv("VT_SCALE") ? atof(getenv("VT_SCALE")) : 1) * (R.thorough ? 10 : 1);
  Chaos::Seed() = R.seed;
  const int n = std::max(20, int(1500 * scale));
  const bool sig = getenv("VT_NOSIG") == nullptr;
  for (int rep = 0; rep < 3; ++rep) {
    const uint64_t s = Mix(R.seed, uint64_t(rep));
    All("futex", FutexWait(), s, n, sig && rep != 1);
    All("SpinPause", SpinWait<hwy::SpinPause>(), s + 1, n, false);
    All("SpinMonitorX(emulated)", SpinWait<hwy::SpinMonitorX>(), s + 2, n, false);
    All("SpinUMonitor(emulated)", SpinWait<hwy::SpinUMonitor>(), s + 3, n, false);
  }
  for (int rep = 0; rep < 3; ++rep) {
    const uint64_t s = Mix(R.seed, uint64_t(rep) + 50);
    const int m = std::max(200, int(20000 * scale));
    Chaos::Level() = rep;
    Toggle("futex", FutexWait(), s, m); Toggle("SpinPause", SpinWait<hwy::SpinPause>(), s + 1, m);
    Toggle("SpinMonitorX(emulated)", SpinWait<hwy::SpinMonitorX>(), s + 2, m / 10); Toggle("SpinUMonitor(emulated)", SpinWait<hwy::SpinUMonitor>(), s + 3, m / 10);
    Chaos::Level() = 0;
    Scripted("SpinPause", SpinWait<hwy::SpinPause>(), s + 1, m); Scripted("SpinMonitorX(emulated)", SpinWait<hwy::SpinMonitorX>(), s + 2, m); Scripted("SpinUMonitor(emulated)", SpinWait<hwy::SpinUMonitor>(), s + 3, m);
  }
  R.counters["scripted waits"] = g_scripted; R.counters["scripted changes back to the old value"] = g_aba;
  Sleep(R.seed); Detect();
  R.counters["waits returned"] = g_wakes; R.counters["value changed before the wait began"] = g_already; R.counters["signals delivered to waiters"] = g_signals;
  R.counters["emulated monitor"] = g_monitors; R.counters["emulated wait"] = g_waits; R.counters["emulated waits that slept"] = g_sleeps; R.counters["delays injected"] = Chaos::Delays();
  R.Sample(Fmt("%llu waits returned the value stored by the writer; %llu signals interrupted waiters; %llu emulated sleeps", (unsigned long long)g_wakes.load(), (unsigned long long)g_signals.load(), (unsigned long long)g_sleeps.load()));
  return R.Write();
}
