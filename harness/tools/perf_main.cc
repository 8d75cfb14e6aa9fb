// P31: performance counters on a simulated kernel (the perf system calls of
// this program are answered by the model below).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <linux/perf_event.h>
#include <math.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <algorithm>
#include "common/aborts.h"
#include "common/child.h"
#include "hwy/perf_counters.h"
#include "hwy/timer.h"
namespace vt {
using PC = hwy::platform::PerfCounters;
constexpr int kBase = 700;  // simulated descriptors
struct Event { uint32_t type; uint64_t config; int leader; bool enabled; double rate, value; uint64_t t_enabled, t_running; bool user_only; };
struct Kernel {
  bool on = false, supported = true, eacces = false, amd = false, hide_cycles = false; int limit_hw = 6, limit_l3 = 2, mux = 1; std::set<std::pair<uint32_t, uint64_t>> missing;
  int eintr_open = 0, eintr_read = 0; bool short_read = false, eio = false; int flaky = 0; bool failed = false; int major = 6, minor = 10; bool strange_release = false;
  std::vector<Event> ev; uint64_t opens = 0, refused = 0, interrupts = 0, shorts = 0, reads = 0, clock = 0, resets = 0, stat_calls = 0, leaders_sw = 0; bool bad_fd = false, bad_attr = false; std::map<int, std::pair<std::vector<uint8_t>, size_t>> pending;
  static bool L3(uint32_t type, uint64_t config) { return type == PERF_TYPE_HW_CACHE && (config & 255) == PERF_COUNT_HW_CACHE_LL; }
  int Open(const perf_event_attr* a, pid_t pid, int cpu, int group, unsigned long flags) { const int r = TryOpen(a, pid, cpu, group, flags); if (!(r < 0 && errno == EINTR)) failed = r < 0; return r; }
  int TryOpen(const perf_event_attr* a, pid_t pid, int cpu, int group, unsigned long flags) {
    ++opens; if (eintr_open && opens % uint64_t(eintr_open + 1) != 0) { ++interrupts; errno = EINTR; return -1; }
    if (a->size < PERF_ATTR_SIZE_VER0 || pid != 0 || cpu != -1 || (flags & ~0xFul)) { bad_attr = true; errno = EINVAL; return -1; }
    if (!supported) { errno = ENOSYS; return -1; }
    if (eacces || !a->exclude_kernel) { ++refused; errno = EACCES; return -1; }
    if (missing.count({a->type, a->config})) { ++refused; errno = a->config & 1 ? ENOENT : EOPNOTSUPP; return -1; }
    if (flaky && !failed && opens % uint64_t(flaky) == 0) { ++refused; errno = EBUSY; return -1; }  // busy for a moment
    if (group != -1) {
      if (group < kBase || size_t(group - kBase) >= ev.size()) { errno = EBADF; bad_fd = true; return -1; }
      if (ev[size_t(group - kBase)].leader != group - kBase) { errno = EINVAL; return -1; }
      int hw = a->type == PERF_TYPE_SOFTWARE ? 0 : 1, l3 = L3(a->type, a->config); for (auto& e : ev) if (e.leader == group - kBase) { hw += e.type != PERF_TYPE_SOFTWARE; l3 += L3(e.type, e.config); }
      if (hw > limit_hw || l3 > limit_l3) { ++refused; errno = hw & 1 ? ENOSPC : EINVAL; return -1; }
    }
    if (a->inherit && (a->read_format & PERF_FORMAT_GROUP)) { errno = EINVAL; return -1; }
    const uint64_t want = PERF_FORMAT_TOTAL_TIME_ENABLED | PERF_FORMAT_TOTAL_TIME_RUNNING | PERF_FORMAT_GROUP; if (a->read_format != want) bad_attr = true;  // the model implements this layout
    const int id = int(ev.size()); if (group == -1 && a->type == PERF_TYPE_SOFTWARE) ++leaders_sw;
    ev.push_back({a->type, a->config, group == -1 ? id : group - kBase, !a->disabled, 1.0 + double(id) * 1.37 + double((a->config * 2654435761u + a->type * 40503u) % 1009) * 17, 0, 0, 0, true}); return kBase + id;
  }
  void Work(uint64_t dt) {  // groups take turns
    std::vector<int> leaders; for (size_t i = 0; i < ev.size(); ++i) if (ev[i].leader == int(i)) leaders.push_back(int(i));
    for (uint64_t t = 0; t < dt; ++t, ++clock) for (auto& e : ev) {
      if (!e.enabled) continue; ++e.t_enabled; const size_t pos = size_t(std::find(leaders.begin(), leaders.end(), e.leader) - leaders.begin());
      const bool runs = mux == 0 ? false : mux == 1 || leaders.size() < 2 || clock % leaders.size() == pos; if (runs) { ++e.t_running; e.value += e.rate; }
    }
  }
};
static Kernel K;
static ssize_t ReadEvents(int fd, void* buf, size_t n) {
  ++K.reads; const size_t id = size_t(fd - kBase); if (id >= K.ev.size()) { K.bad_fd = true; errno = EBADF; return -1; }
  if (K.eio) { errno = EIO; return -1; }
  if (K.eintr_read && K.reads % uint64_t(K.eintr_read + 1) != 0) { ++K.interrupts; errno = EINTR; return -1; }
  auto& p = K.pending[fd]; if (p.first.empty() || p.second == p.first.size()) {  // snapshot of the group
    std::vector<uint64_t> w = {0, K.ev[id].t_enabled, K.ev[id].t_running}; const bool leads = K.ev[id].leader == int(id);
    for (size_t i = 0; i < K.ev.size(); ++i) if (i == id || (leads && K.ev[i].leader == int(id))) { ++w[0]; w.push_back(uint64_t(K.ev[i].value)); }
    p.first.assign(reinterpret_cast<uint8_t*>(w.data()), reinterpret_cast<uint8_t*>(w.data() + w.size())); p.second = 0; if (n < p.first.size()) { errno = ENOSPC; p.first.clear(); return -1; }
  }
  size_t give = std::min(n, p.first.size() - p.second); if (K.short_read && p.second == 0 && give > 9) { give = give / 2 + 3; ++K.shorts; }
  memcpy(buf, p.first.data() + p.second, give); p.second += give; return ssize_t(give);
}
}  // namespace vt
extern "C" {
long syscall(long nr, ...) noexcept {
  va_list ap; va_start(ap, nr); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
  if (vt::K.on && nr == __NR_perf_event_open) return vt::K.Open(reinterpret_cast<perf_event_attr*>(a[0]), pid_t(a[1]), int(a[2]), int(a[3]), static_cast<unsigned long>(a[4]));
  using F = long (*)(long, ...); static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "syscall")); return f(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
ssize_t read(int fd, void* b, size_t n) { if (vt::K.on && fd >= vt::kBase) return vt::ReadEvents(fd, b, n); using F = ssize_t (*)(int, void*, size_t); static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "read")); return f(fd, b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); const long a = va_arg(ap, long); va_end(ap);
  if (vt::K.on && fd >= vt::kBase) {
    const size_t id = size_t(fd - vt::kBase); if (id >= vt::K.ev.size()) { vt::K.bad_fd = true; errno = EBADF; return -1; }
    for (size_t i = 0; i < vt::K.ev.size(); ++i) {
      if (i != id && !((a & PERF_IOC_FLAG_GROUP) && vt::K.ev[i].leader == vt::K.ev[id].leader)) continue; auto& e = vt::K.ev[i];
      if (req == PERF_EVENT_IOC_RESET) { e.value = 0; ++vt::K.resets; } else if (req == PERF_EVENT_IOC_ENABLE) e.enabled = true; else if (req == PERF_EVENT_IOC_DISABLE) e.enabled = false; else { errno = ENOTTY; return -1; }
    }
    return 0;
  }
  using F = int (*)(int, unsigned long, ...); static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "ioctl")); return f(fd, req, a);
}
int prctl(int op, ...) noexcept {
  va_list ap; va_start(ap, op); unsigned long a[4]; for (auto& x : a) x = va_arg(ap, unsigned long); va_end(ap);
  if (vt::K.on && (op == PR_TASK_PERF_EVENTS_ENABLE || op == PR_TASK_PERF_EVENTS_DISABLE)) { for (auto& e : vt::K.ev) e.enabled = op == PR_TASK_PERF_EVENTS_ENABLE; return 0; }
  using F = int (*)(int, ...); static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "prctl")); return f(op, a[0], a[1], a[2], a[3]);
}
static bool vt_Absent(const char* p) { if (vt::K.on && p && strstr(p, "perf_event_paranoid")) { ++vt::K.stat_calls; return true; } return false; }
int stat(const char* p, struct stat* s) noexcept { if (vt_Absent(p)) { if (vt::K.supported) { memset(s, 0, sizeof(*s)); s->st_mode = S_IFREG | 0644; return 0; } errno = ENOENT; return -1; } using F = int (*)(const char*, struct stat*); static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "stat")); return f(p, s); }
int access(const char* p, int m) noexcept { if (vt_Absent(p)) { if (vt::K.supported) return 0; errno = ENOENT; return -1; } using F = int (*)(const char*, int); static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "access")); return f(p, m); }
int uname(struct utsname* u) noexcept {
  using F = int (*)(struct utsname*); static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "uname")); const int r = f(u);
  if (vt::K.on && r == 0) { strcpy(u->sysname, "Linux"); if (vt::K.strange_release) strcpy(u->release, "unknown"); else snprintf(u->release, sizeof(u->release), "%d.%d.0-generic", vt::K.major, vt::K.minor); }
  return r;
}
}
namespace vt {
struct Def { PC::Counter c; uint32_t type; uint64_t config; const char* name; };
constexpr uint64_t kL3Read = PERF_COUNT_HW_CACHE_LL | (uint64_t(PERF_COUNT_HW_CACHE_OP_READ) << 8), kL3Write = PERF_COUNT_HW_CACHE_LL | (uint64_t(PERF_COUNT_HW_CACHE_OP_WRITE) << 8);
static const Def kDefs[] = {{PC::kRefCycles, PERF_TYPE_HARDWARE, PERF_COUNT_HW_REF_CPU_CYCLES, "ref_cycles"}, {PC::kInstructions, PERF_TYPE_HARDWARE, PERF_COUNT_HW_INSTRUCTIONS, "instructions"}, {PC::kBranches, PERF_TYPE_HARDWARE, PERF_COUNT_HW_BRANCH_INSTRUCTIONS, "branches"}, {PC::kBranchMispredicts, PERF_TYPE_HARDWARE, PERF_COUNT_HW_BRANCH_MISSES, "branch_mispredicts"}, {PC::kBusCycles, PERF_TYPE_HARDWARE, PERF_COUNT_HW_BUS_CYCLES, "bus_cycles"}, {PC::kCacheRefs, PERF_TYPE_HARDWARE, PERF_COUNT_HW_CACHE_REFERENCES, "cache_refs"}, {PC::kCacheMisses, PERF_TYPE_HARDWARE, PERF_COUNT_HW_CACHE_MISSES, "cache_misses"}, {PC::kL3Loads, PERF_TYPE_HW_CACHE, kL3Read, "l3_load"}, {PC::kL3Stores, PERF_TYPE_HW_CACHE, kL3Write, "l3_store"}, {PC::kPageFaults, PERF_TYPE_SOFTWARE, PERF_COUNT_SW_PAGE_FAULTS, "page_fault"}, {PC::kMigrations, PERF_TYPE_SOFTWARE, PERF_COUNT_SW_CPU_MIGRATIONS, "migration"}};
static bool Is(const Def& d, const Event& e) { if (d.c == PC::kRefCycles && e.type == PERF_TYPE_HARDWARE && e.config == PERF_COUNT_HW_CPU_CYCLES) return true; return d.type == e.type && d.config == e.config; }
static int g_warn;
static void Judge(const std::string& what, bool inited) {
  Report& R = Rep(); const PC pc; bool ok = inited && !K.ev.empty() && !K.eio; double max_ex = 0; std::map<int, double> want; bool any_running = true;
  for (auto& e : K.ev) { const Event& l = K.ev[size_t(e.leader)]; if (l.t_running == 0) any_running = false; }
  ok &= any_running;
  if (ok) for (auto& e : K.ev) { const Event& l = K.ev[size_t(e.leader)]; const double ex = double(l.t_enabled) / double(l.t_running); max_ex = std::max(max_ex, ex); for (auto& d : kDefs) if (Is(d, e)) want[d.c] = double(uint64_t(e.value)) * ex; }
  R.Eval(3); R.Check(pc.AnyValid() == ok, "AnyValid", "%d, want %d (%s)", pc.AnyValid(), ok, what.c_str());
  if (ok && pc.AnyValid()) R.Check(fabs(pc.MaxExtrapolate() - std::max(1.0, max_ex)) <= 1e-12 * max_ex, "MaxExtrapolate", "%g, want %g (%s)", pc.MaxExtrapolate(), max_ex, what.c_str());
  for (auto& d : kDefs) {
    const bool has = want.count(d.c) != 0; const double w = has ? want[d.c] : 0.0, got = pc.Get(d.c); R.Eval();
    R.Check(pc.IsValid(d.c) == has, Fmt("IsValid/%s", d.name), "%d, want %d (%s)", pc.IsValid(d.c), has, what.c_str());
    R.Check(fabs(got - w) <= 1e-9 * w, Fmt("Get/%s", d.name), "%.17g, want %.17g (%s)", got, w, what.c_str()); if (has && w != 0) R.Count("counter values compared");
  }
  std::vector<std::pair<int, double>> seen, exp(want.begin(), want.end()); PC copy = pc; copy.Foreach([&](double v, PC::Counter c) { seen.emplace_back(int(c), v); });
  bool same = seen.size() == exp.size(); for (size_t i = 0; same && i < seen.size(); ++i) same = seen[i].first == exp[i].first && fabs(seen[i].second - exp[i].second) <= 1e-9 * exp[i].second;
  R.Check(same, "Foreach", "%zu counters visited, want %zu in increasing order (%s)", seen.size(), exp.size(), what.c_str());
}
static void Scenario(uint64_t seed) {
  Report& R = Rep(); Rng g(seed); K = Kernel(); hwy::SetWarnFunc([](const char*, int, const char*) { ++g_warn; });
  K.limit_hw = 1 + int(g.below(9)); K.limit_l3 = 1 + int(g.below(3)); K.mux = g.below(3) ? 2 : 1; K.major = 4 + int(g.below(4)); K.minor = int(g.below(12)); K.strange_release = g.below(10) == 0;
  const int bad = int(g.below(8)); if (bad == 0) K.supported = false; else if (bad == 1) K.eacces = true;
  else if (bad < 6) { const int p = int(g.below(3)); for (auto& d : kDefs) if (g.below(3) < uint64_t(p)) K.missing.insert({d.type, d.config}); if (g.below(3) == 0) for (auto& d : kDefs) if (d.type != PERF_TYPE_SOFTWARE) K.missing.insert({d.type, d.config}); if (K.missing.count({PERF_TYPE_HARDWARE, PERF_COUNT_HW_REF_CPU_CYCLES})) K.missing.insert({PERF_TYPE_HARDWARE, PERF_COUNT_HW_CPU_CYCLES}); }
  if (g.below(3) == 0) K.eintr_open = 1 + int(g.below(8)); if (g.below(3) == 0) K.eintr_read = 1 + int(g.below(4)); K.short_read = g.below(3) == 0; if (g.below(4) == 0 && !K.eintr_open) K.flaky = 1 + int(g.below(5));
  const std::string what = Fmt("%d HW events per group, %d L3, %s, %zu events missing, open interrupted %d times, read %d times%s, Linux %d.%d%s%s", K.limit_hw, K.limit_l3, K.mux == 2 ? "multiplexed" : "not multiplexed", K.missing.size(), K.eintr_open, K.eintr_read, K.short_read ? ", short reads" : "", K.major, K.minor, K.supported ? "" : ", no perf", K.eacces ? ", not permitted" : "");
  K.on = true; Judge("before Init; " + what, false);
  bool inited = false; const int steps = 6 + int(g.below(20)); bool enabled = false; uint64_t h = seed;
  R.Eval(); R.Check(!PC::StartAll(), "StartAll before Init", "returned true (%s)", what.c_str());
  for (int i = 0; i < steps; ++i) {
    const int op = i == 0 ? 0 : int(g.below(10)); h = Mix(h, uint64_t(op)); const std::string st = Fmt("step %d; ", i) + what;
    if (op == 0) {
      const size_t before = K.ev.size(); const uint64_t opens = K.opens; const bool r = PC::Init(); R.Eval();
      const bool want = !K.ev.empty(); R.Check(r == want, "Init", "returned %d with %zu events open (%s)", r, K.ev.size(), st.c_str());
      if (before) R.Check(K.opens == opens, "Init again", "opened more events (%s)", st.c_str());
      else if (K.supported && !K.eacces) for (auto& d : kDefs) { size_t n = 0; for (auto& e : K.ev) n += Is(d, e); const bool can = !K.missing.count({d.type, d.config}); R.Eval(); R.Check(n <= 1 && (n == 1) == can, Fmt("events opened/%s", d.name), "%zu open, available: %d (%s)", n, can, st.c_str()); }
      if (!before) { for (auto& e : K.ev) R.Check(!e.enabled && e.value == 0, "counters run after Init", "(%s)", st.c_str()); }
      inited = !K.ev.empty();
    } else if (op == 1 || op == 2) { const bool r = PC::StartAll(); R.Eval(); R.Check(r == inited, "StartAll", "returned %d (%s)", r, st.c_str()); if (inited) { enabled = true; for (auto& e : K.ev) R.Check(e.enabled, "not started by StartAll", "(%s)", st.c_str()); } }
    else if (op == 3) { PC::StopAllAndReset(); enabled = false; R.Eval(); for (auto& e : K.ev) R.Check(!e.enabled && e.value == 0, "not stopped and zeroed", "enabled %d, value %g (%s)", e.enabled, e.value, st.c_str()); }
    else if (op == 4 && g.below(4) == 0) { K.eio = true; Judge("read errors; " + st, inited); K.eio = false; K.pending.clear(); }
    else if (op == 5 && g.below(4) == 0 && !inited) { K.supported = true; K.eacces = false; K.missing.clear(); }  // a later Init may succeed
    else if (op <= 7) K.Work(g.below(3) ? 1 + g.below(1000) : g.below(12)); else Judge(st, inited);
    for (auto& e : K.ev) if (e.enabled != enabled && inited) { R.Viol("enabled state", st); break; }
  }
  Judge("end; " + what, inited); R.Check(!K.bad_fd, "bad descriptor used", "%s", what.c_str()); if (K.bad_attr) R.Count("events with another read format");
  K.on = false; hwy::SetWarnFunc(nullptr); R.See(h); R.Count("kernels simulated"); R.Count("events opened", K.ev.size()); R.Count("opens refused", K.refused); R.Count("interrupted system calls", K.interrupts); R.Count("short reads", K.shorts); R.Count("group reads", K.reads);
  size_t groups = 0; for (size_t i = 0; i < K.ev.size(); ++i) groups += K.ev[i].leader == int(i); R.Max("most groups", groups); if (seed % 401 == 0) R.Sample(what + Fmt(": %zu events in %zu groups", K.ev.size(), groups));
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); WatchAborts(); const double scale = (getenv("VT_SCALE") ? atof(getenv("VT_SCALE")) : 1.0) * (R.thorough ? 10 : 1); Rng g(R.seed * 97 + 5); Children kids(std::max(1, R.threads), 120);
  for (auto& d : kDefs) { R.Eval(); R.Check(!strcmp(PC::Name(d.c), d.name), "Name", "%s, want %s", PC::Name(d.c), d.name); }
  if (const char* one = getenv("VT_ONE")) { Scenario(strtoull(one, nullptr, 10)); return R.Write(); }
  for (int i = 0; i < int(4000 * scale) + 20; ++i) { const uint64_t s = g(); kids.Start(Fmt("scenario| seed %llu", (unsigned long long)s), [=] { Scenario(s); }); }
  kids.Wait(); return R.Write();
}
