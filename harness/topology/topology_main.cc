// P25: Topology / DataCaches on simulated machines (redirected sysfs reads) and
// on this one; thread affinity round trips.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "../common/report.h"
#include "../common/watch.h"
#include "../common/aborts.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <algorithm>
#include <numeric>
#include <thread>
#include "hwy/contrib/thread_pool/topology.h"

namespace vt {
// ---- redirection of the operating system's description of the machine
static std::string g_root;            // scratch directory standing in for /sys/devices/system
static long g_online = 0;             // 0: the real value
static std::atomic<uint64_t> g_opens{0}, g_interrupts{0}, g_short_reads{0};
static std::atomic<int> g_fault{0};   // 1: interrupted and short reads
static std::string Redirect(const char* path) {
  static const char kSys[] = "/sys/devices/system/";
  if (!g_root.empty() && path && strncmp(path, kSys, sizeof(kSys) - 1) == 0) { ++g_opens; return g_root + "/" + (path + sizeof(kSys) - 1); }
  return path ? path : "";
}
static int SysOpen(const char* path, int flags, int mode) {
  if (g_fault && !g_root.empty() && strncmp(path, "/sys/", 5) == 0 && (g_opens % 5) == 3) { static thread_local int again = 0; if (++again % 2) { ++g_interrupts; errno = EINTR; return -1; } }
  return int(syscall(SYS_openat, AT_FDCWD, Redirect(path).c_str(), flags, mode));
}
}  // namespace vt
extern "C" {
int open(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); const int m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); return vt::SysOpen(p, flags, m); }
int open64(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); const int m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); return vt::SysOpen(p, flags, m); }
static FILE* vt_fopen(const char* p, const char* mode, const char* name) { using F = FILE* (*)(const char*, const char*); static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); return f(vt::Redirect(p).c_str(), mode); }
FILE* fopen(const char* p, const char* mode) { return vt_fopen(p, mode, "fopen"); }
FILE* fopen64(const char* p, const char* mode) { return vt_fopen(p, mode, "fopen64"); }
ssize_t read(int fd, void* buf, size_t n) {
  if (vt::g_fault && fd > 2) {
    static thread_local unsigned k = 0; ++k;
    if (k % 7 == 3) { ++vt::g_interrupts; errno = EINTR; return -1; }
    if (k % 3 == 1 && n > 3) { ++vt::g_short_reads; n = 1 + k % 3; }
  }
  return syscall(SYS_read, fd, buf, n);
}
ssize_t __read_chk(int fd, void* buf, size_t n, size_t size) { if (n > size) { vt::Rep().Viol("topology/read-past-buffer", vt::Fmt("read of %zu bytes into %zu", n, size)); vt::Rep().Finish(); } return read(fd, buf, n); }
long sysconf(int name) noexcept {
  using F = long (*)(int); static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "sysconf"));
  if (vt::g_online && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return vt::g_online;
  return f(name);
}
}
namespace vt {
struct CacheModel { bool exists = false; uint32_t kib, ways, line; uint64_t sets; };
struct Machine {
  size_t num = 0; std::vector<size_t> pkg, cluster, core, node, smt; bool l3 = true; size_t nodes = 1, empty_node = ~size_t(0);
  std::vector<size_t> pkg_id, l3_id, core_id;  // opaque sysfs ids per LP
  CacheModel c[4]; std::vector<std::vector<size_t>> shared;  // [level]: LPs sharing cpu0's cache
  std::string name; int missing = 0;
};
static uint32_t L3Kib(const Machine& m, size_t i) { return m.c[3].kib + (m.cluster[i] == m.cluster[0] ? 0 : 1 + uint32_t(m.cluster[i])); }
static std::string List(std::vector<size_t> v) {  // kernel cpulist format
  std::sort(v.begin(), v.end()); std::string s;
  for (size_t i = 0; i < v.size();) { size_t j = i; while (j + 1 < v.size() && v[j + 1] == v[j] + 1) ++j; if (!s.empty()) s += ','; s += j > i ? Fmt("%zu-%zu", v[i], v[j]) : Fmt("%zu", v[i]); i = j + 1; }
  return s;
}
static Machine Make(Rng& g) {
  Machine m; const size_t P = 1 + (g.below(3) ? g.below(2) : g.below(8)), per = 1 + (g.below(4) ? g.below(16) : g.below(64)), T = g.below(3) ? 1 + g.below(2) : 1 + g.below(8);
  size_t C = 1 + g.below(per); const size_t cluster_size = (per + C - 1) / C; const bool hetero = g.below(5) == 0;  // some cores without SMT
  struct Lp { size_t p, c, k, t; }; std::vector<Lp> v;
  for (size_t p = 0; p < P; ++p) for (size_t k = 0; k < per; ++k) for (size_t t = 0; t < (hetero && k % 2 ? 1 : T); ++t) v.push_back({p, k / cluster_size, k, t});
  const int order = int(g.below(4));
  if (order == 0) std::stable_sort(v.begin(), v.end(), [](const Lp& a, const Lp& b) { return a.t < b.t; });       // siblings in the upper half
  else if (order == 1) {}                                                                                         // siblings adjacent
  else if (order == 2) std::stable_sort(v.begin(), v.end(), [](const Lp& a, const Lp& b) { return std::make_pair(a.t, a.k) < std::make_pair(b.t, b.k); });  // round robin over packages
  else for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.below(i)]);
  const size_t cap = g.below(8) ? 200 : 1024; if (v.size() > cap) v.resize(cap);
  const int ids = int(g.below(3)); m.l3 = g.below(4) != 0; const size_t nodes_per_pkg = 1 + g.below(3) / 2; m.nodes = P * nodes_per_pkg;
  m.num = v.size();
  const size_t big = ids == 2 ? 100000 + g.below(1000000) : 0; const size_t core_stride = 1 + g.below(5); const bool global_core_ids = g.below(2);
  for (const Lp& l : v) {
    m.pkg.push_back(l.p); m.core.push_back(l.p * per + l.k); m.cluster.push_back(l.p * C + l.c); m.smt.push_back(l.t);
    m.node.push_back(l.p * nodes_per_pkg + (l.k * nodes_per_pkg) / per);
    m.pkg_id.push_back(ids == 0 ? l.p : ids == 1 ? l.p * 36 + 2 : big - l.p * 7);
    m.core_id.push_back((global_core_ids ? l.p * per + l.k : l.k) * core_stride + (ids == 2 ? 5 : 0));
    m.l3_id.push_back(ids == 0 ? l.p * C + l.c : (l.p * C + l.c) * 3 + big);
  }
  // Caches of processor 0.
  const uint32_t line = g.below(4) ? 64 : (g.below(2) ? 32 : 128);
  auto fill = [&](int level, uint32_t lo, uint32_t hi) { CacheModel& c = m.c[level]; c.exists = true; c.line = line; static const uint32_t w[] = {4, 8, 10, 11, 12, 16, 20, 24}; c.ways = w[g.below(8)]; const uint64_t unit = uint64_t(c.line) * c.ways; uint64_t sets = 16 + g.below(64) * 16; do { c.sets = sets; c.kib = uint32_t(sets * unit / 1024); sets += 16; } while (c.kib < lo || sets * 0); if (c.kib > hi) {} (void)hi; while ((c.sets * unit) % 1024) { ++c.sets; } c.kib = uint32_t(c.sets * unit / 1024); };
  fill(1, 8, 512); fill(2, 128, 4096); if (m.l3) fill(3, 1024 + 1024 * uint32_t(g.below(64)), 1u << 20);
  m.shared.assign(4, {}); const bool l2_cluster = g.below(4) == 0;
  for (size_t i = 0; i < m.num; ++i) { if (m.core[i] == m.core[0]) m.shared[1].push_back(i); if (l2_cluster ? m.cluster[i] == m.cluster[0] : m.core[i] == m.core[0]) m.shared[2].push_back(i); if (m.cluster[i] == m.cluster[0]) m.shared[3].push_back(i); }
  if (g.below(4) == 0) m.empty_node = g.below(m.nodes + 1);  // a node with memory only
  if (g.below(12) == 0) m.missing = 1 + int(g.below(2));
  m.name = Fmt("%zu packages x %zu cores x %zu threads, %zu clusters, order %d ids %d, L3 %d, nodes %zu%s%s, %zu LPs", P, per, T, C, order, ids, m.l3, m.nodes, m.empty_node != ~size_t(0) ? " + memory-only node" : "", m.missing ? ", incomplete sysfs" : "", m.num);
  return m;
}
static void Put(const std::string& path, const std::string& text) {
  for (size_t i = g_root.size() + 1; (i = path.find('/', i)) != std::string::npos; ++i) mkdir(path.substr(0, i).c_str(), 0700);
  const int fd = int(syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600)); if (fd < 0 || write(fd, text.data(), text.size()) != ssize_t(text.size())) { perror(path.c_str()); exit(2); } close(fd);
}
static void RemoveTree(const std::string& d) {
  if (d.find("/vt_topology_") == std::string::npos) return;
  if (DIR* dir = opendir(d.c_str())) { while (dirent* e = readdir(dir)) { const std::string n = e->d_name; if (n == "." || n == "..") continue; const std::string p = d + "/" + n; if (e->d_type == DT_DIR) RemoveTree(p); else unlink(p.c_str()); } closedir(dir); rmdir(d.c_str()); }
}
static void WriteMachine(const Machine& m) {
  const std::string cpu = g_root + "/cpu/cpu";
  for (size_t i = 0; i < m.num; ++i) {
    const std::string d = cpu + std::to_string(i);
    if (!(m.missing == 1 && i == m.num - 1)) Put(d + "/topology/physical_package_id", Fmt("%zu\n", m.pkg_id[i]));
    if (!(m.missing == 2 && i == m.num / 2)) Put(d + "/topology/core_id", Fmt("%zu\n", m.core_id[i]));
    if (m.l3) { Put(d + "/cache/index3/id", Fmt("%zu\n", m.l3_id[i])); Put(d + "/cache/index3/size", Fmt("%uK\n", L3Kib(m, i))); }
    Put(d + "/cache/index2/size", m.c[2].kib % 1024 ? Fmt("%uK\n", m.c[2].kib) : Fmt("%uM\n", m.c[2].kib / 1024));
  }
  const std::string c0 = cpu + "0/cache/index"; const char* types[4] = {"Data", "Instruction", "Unified", "Unified"}; const int levels[4] = {1, 1, 2, 3};
  for (int i = 0; i < (m.l3 ? 4 : 3); ++i) {
    const CacheModel& c = m.c[levels[i]]; const std::string d = c0 + std::to_string(i) + "/"; const bool instr = i == 1;
    Put(d + "type", std::string(types[i]) + "\n"); Put(d + "level", Fmt("%d\n", levels[i])); Put(d + "size", Fmt("%uK\n", instr ? c.kib * 3 : c.kib)); Put(d + "ways_of_associativity", Fmt("%u\n", c.ways)); Put(d + "number_of_sets", Fmt("%llu\n", (unsigned long long)c.sets * (instr ? 3 : 1))); Put(d + "coherency_line_size", Fmt("%u\n", c.line)); Put(d + "shared_cpu_list", List(m.shared[size_t(levels[i])]) + "\n");
  }
  size_t id = 0; for (size_t n = 0; n < m.nodes + (m.empty_node != ~size_t(0)); ++n) {
    std::vector<size_t> v; if (n != m.empty_node) { for (size_t i = 0; i < m.num; ++i) if (m.node[i] == id) v.push_back(i); ++id; }
    Put(g_root + "/node/node" + std::to_string(n) + "/cpulist", List(v) + "\n");
  }
}
// Indices in one field must correspond one to one with the model's groups and be dense.
template <class F> static void Groups(const char* what, const Machine& m, const std::vector<size_t>& model, F field) {
  std::map<size_t, size_t> f, b;
  for (size_t i = 0; i < m.num; ++i) { const size_t x = field(i); auto p = f.emplace(model[i], x); auto q = b.emplace(x, model[i]); Rep().Eval(); if (!Rep().Check(p.first->second == x && q.first->second == model[i], std::string("topology/") + what, "LP %zu of: %s", i, m.name.c_str())) return; }
}
static void CheckMachine(const Machine& m) {
  Report& R = Rep(); Watched w("Topology|%s", m.name.c_str()); AbortContext() = "Topology|" + m.name;
  R.Eval(); R.Check(hwy::TotalLogicalProcessors() == m.num, "topology/TotalLogicalProcessors", "%s", m.name.c_str());
  const hwy::Topology t;
  R.Eval(); if (!R.Check(t.lps.size() == m.num, "topology/lps-size", "%zu: %s", t.lps.size(), m.name.c_str())) return;
  if (m.missing) { R.Check(t.packages.empty(), "topology/incomplete-sysfs", "%s", m.name.c_str()); AbortContext().clear(); return; }
  const size_t np = std::set<size_t>(m.pkg.begin(), m.pkg.end()).size();
  if (!R.Check(t.packages.size() == np, "topology/num-packages", "%zu want %zu: %s", t.packages.size(), np, m.name.c_str())) return;
  auto key = [&](size_t i, size_t x) { return size_t(t.lps[i].package) * 100000 + x; };
  for (size_t i = 0; i < m.num; ++i) { const auto& l = t.lps[i]; if (!R.Check(l.package < np && l.cluster < t.packages[l.package].clusters.size() && l.core < t.packages[l.package].cores.size(), "topology/index-out-of-range", "LP %zu package %d cluster %d core %d of %s", i, l.package, l.cluster, l.core, m.name.c_str())) return; }
  Groups("package", m, m.pkg, [&](size_t i) { return size_t(t.lps[i].package); });
  Groups("core", m, m.core, [&](size_t i) { return key(i, t.lps[i].core); });
  if (m.l3) Groups("cluster", m, m.cluster, [&](size_t i) { return key(i, t.lps[i].cluster); });
  else Groups("cluster-without-L3", m, m.pkg, [&](size_t i) { return key(i, t.lps[i].cluster); });
  std::map<size_t, std::set<size_t>> smts; for (size_t i = 0; i < m.num; ++i) smts[m.core[i]].insert(t.lps[i].smt);
  std::map<size_t, size_t> n; for (size_t c : m.core) ++n[c];
  for (auto& s : smts) { R.Eval(); R.Check(s.second.size() == n[s.first] && *s.second.rbegin() == n[s.first] - 1, "topology/smt", "core %zu: %s", s.first, m.name.c_str()); }
  for (size_t i = 0; i < m.num; ++i) { const size_t want = m.node[i] + (m.empty_node <= m.node[i]); R.Eval(); if (!R.Check(t.lps[i].node == want, "topology/node", "LP %zu node %d want %zu: %s", i, t.lps[i].node, want, m.name.c_str())) break; }
  // Sets of processors partition the machine, consistently with the indices.
  for (size_t p = 0; p < np; ++p) {
    size_t nc = 0, nk = 0; std::set<size_t> cs, ks;
    for (size_t i = 0; i < m.num; ++i) if (t.lps[i].package == p) { cs.insert(t.lps[i].cluster); ks.insert(t.lps[i].core); }
    R.Check(cs.size() == t.packages[p].clusters.size() && ks.size() == t.packages[p].cores.size(), "topology/unused-index", "%s", m.name.c_str());
    for (const auto& c : t.packages[p].clusters) {
      std::set<size_t> got, want; c.lps.Foreach([&](size_t x) { got.insert(x); }); for (size_t i = 0; i < m.num; ++i) if (t.lps[i].package == p && t.lps[i].cluster == nc) want.insert(i);
      R.Eval(); R.Check(got == want && c.lps.Count() == want.size(), "topology/cluster-set", "package %zu cluster %zu: %zu LPs want %zu: %s", p, nc, got.size(), want.size(), m.name.c_str());
      if (!want.empty()) { const size_t i = *want.begin(); R.Check(c.private_kib == m.c[2].kib, "topology/private_kib", "%zu want %u: %s", size_t(c.private_kib), m.c[2].kib, m.name.c_str()); R.Check(c.shared_kib == (m.l3 ? L3Kib(m, i) : 0), "topology/shared_kib", "%zu: %s", size_t(c.shared_kib), m.name.c_str()); }
      ++nc;
    }
    for (const auto& c : t.packages[p].cores) { std::set<size_t> got, want; c.lps.Foreach([&](size_t x) { got.insert(x); }); for (size_t i = 0; i < m.num; ++i) if (t.lps[i].package == p && t.lps[i].core == nk) want.insert(i); R.Eval(); R.Check(got == want, "topology/core-set", "package %zu core %zu: %s", p, nk, m.name.c_str()); ++nk; }
  }
  uint64_t h = 0; for (size_t i = 0; i < m.num; ++i) h = Mix(h, Mix(m.pkg[i], Mix(m.core[i], m.cluster[i]))); R.See(h); R.Count("simulated machines");
  AbortContext().clear();
}
static void CheckCaches(const Machine& m, const hwy::Cache* c) {
  Report& R = Rep(); R.Eval();
  if (!R.Check(c != nullptr, "caches/null", "%s", m.name.c_str())) return;
  R.Check(c[0].size_kib == 0, "caches/level0", "%s", m.name.c_str());
  for (int l = 1; l <= 3; ++l) {
    const hwy::Cache& x = c[l]; const CacheModel& e = m.c[l]; R.Eval();
    if (!e.exists) { R.Check(x.size_kib == 0 && x.cores_sharing == 0, "caches/missing-level", "L%d: %s", l, m.name.c_str()); continue; }
    std::set<size_t> cores; for (size_t i : m.shared[size_t(l)]) cores.insert(m.core[i]); const size_t n = cores.size();
    if (l == 3 && n >= 16 && e.kib / n <= 512) { R.Check(x.size_kib == 0, "caches/system-level-cache", "%s", m.name.c_str()); continue; }
    R.Check(x.cores_sharing == n, "caches/cores_sharing", "L%d %d want %zu: %s", l, x.cores_sharing, n, m.name.c_str());
    R.Check(x.size_kib == e.kib / n, "caches/size_kib", "L%d %u want %zu: %s", l, x.size_kib, e.kib / n, m.name.c_str());
    R.Check(x.bytes_per_line == e.line && x.associativity == e.ways, "caches/geometry", "L%d line %d ways %d want %u %u: %s", l, x.bytes_per_line, x.associativity, e.line, e.ways, m.name.c_str());
    R.Check(x.sets == e.sets / n, "caches/sets", "L%d %u want %llu: %s", l, x.sets, (unsigned long long)(e.sets / n), m.name.c_str());
  }
  R.Check(hwy::DataCaches() == c, "caches/changes", "second call differs");
}
// DataCaches caches its result: one child per machine, which sends its report through a pipe.
static void CachesInChild(const Machine& m) {
  Report& R = Rep(); int fd[2]; if (pipe(fd)) exit(2); fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]); R.violations.clear(); R.evaluations = 0; hwy::SetAbortFunc([](const char* f, int l, const char* msg) { const std::string base = strrchr(f, '/') ? strrchr(f, '/') + 1 : f; Rep().Viol("abort in " + base + " during DataCaches", Fmt("%s:%d: %s", f, l, msg)); });
    std::string s; auto send = [&] { for (auto& v : R.violations) s += v.first + "\t" + v.second + "\n"; s += Fmt("E\t%llu\n", (unsigned long long)R.evaluations.load()); if (write(fd[1], s.data(), s.size())) {} _exit(0); };
    static decltype(send)* ps = &send; hwy::SetAbortFunc([](const char* f, int l, const char* msg) { const std::string base = strrchr(f, '/') ? strrchr(f, '/') + 1 : f; Rep().Viol("abort in " + base + " during DataCaches", Fmt("%s:%d: %s", f, l, msg)); (*ps)(); });
    CheckCaches(m, hwy::DataCaches()); send();
  }
  close(fd[1]); std::string s; char b[4096]; ssize_t k; while ((k = syscall(SYS_read, fd[0], b, sizeof b)) > 0) s.append(b, size_t(k)); close(fd[0]); int st = 0; waitpid(pid, &st, 0);
  R.Check(WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.find("E\t") != std::string::npos, "caches/crash", "status %x: %s", st, m.name.c_str());
  for (size_t p = 0, e; (e = s.find('\n', p)) != std::string::npos; p = e + 1) { const std::string l = s.substr(p, e - p); const size_t t = l.find('\t'); if (l[0] == 'E' && t == 1) R.Eval(strtoull(l.c_str() + 2, nullptr, 10)); else if (t != std::string::npos) R.Viol(l.substr(0, t), l.substr(t + 1) + " [" + m.name + "]"); }
  R.Count("simulated cache hierarchies");
}
// ---- affinity on this machine
static std::set<size_t> Kernel() { cpu_set_t s; CPU_ZERO(&s); std::set<size_t> r; if (syscall(SYS_sched_getaffinity, 0, sizeof s, &s) < 0) return r; for (size_t i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &s)) r.insert(i); return r; }
static std::set<size_t> ToSet(const hwy::LogicalProcessorSet& l) { std::set<size_t> r; l.Foreach([&](size_t i) { r.insert(i); }); return r; }
static void Affinity(uint64_t seed, int reps) {
  Report& R = Rep(); const std::set<size_t> all = Kernel(); std::vector<size_t> v(all.begin(), all.end());
  auto work = [&](uint64_t s) {
    Rng g(s); std::set<size_t> now = Kernel();
    for (int r = 0; r < reps; ++r) {
      hwy::LogicalProcessorSet want; std::set<size_t> w;
      if (r % 3 == 0) { const size_t lp = v[g.below(v.size())]; w = {lp}; R.Check(hwy::PinThreadToLogicalProcessor(lp), "affinity/pin-fails", "lp %zu", lp); R.Check(size_t(sched_getcpu()) == lp, "affinity/pinned-elsewhere", "lp %zu runs on %d", lp, sched_getcpu()); }
      else { while (w.empty()) for (size_t x : v) if (g.below(2)) w.insert(x); for (size_t x : w) want.Set(x); R.Check(hwy::SetThreadAffinity(want), "affinity/set-fails", "%s", List({w.begin(), w.end()}).c_str()); R.Check(w.count(size_t(sched_getcpu())) != 0, "affinity/runs-outside", "on %d", sched_getcpu()); }
      R.Eval(3); R.Check(Kernel() == w, "affinity/kernel-set-differs", "want %s", List({w.begin(), w.end()}).c_str());
      hwy::LogicalProcessorSet got; for (uint64_t k = g.below(4); k--;) got.Set(g.below(1024));  // previous content must not matter
      R.Check(hwy::GetThreadAffinity(got) && ToSet(got) == w, "affinity/read-back", "got %s want %s", List({}).c_str(), List({w.begin(), w.end()}).c_str());
      R.See(HashBytes(s % 8, List({w.begin(), w.end()}).data(), List({w.begin(), w.end()}).size()));
      // A set without any existing processor is refused and changes nothing.
      if (r % 8 == 5) { hwy::LogicalProcessorSet none; if (g.below(2)) none.Set(1023); R.Check(!hwy::SetThreadAffinity(none) && Kernel() == w, "affinity/impossible-set", "accepted"); }
    }
  };
  std::vector<std::thread> ts; for (uint64_t t = 0; t < 4; ++t) ts.emplace_back(work, Mix(seed, t)); for (auto& t : ts) t.join();
  R.Check(Kernel() == all, "affinity/other-thread-changed", "the main thread's affinity changed");
  R.Max("processors allowed here", v.size());
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); WatchAborts(); StartWatchdog(60); hwy::SetWarnFunc([](const char*, int, const char*) {});
  const int m = R.thorough ? 20 : 1; Rng g(R.seed);
  // This machine.
  { const hwy::Topology t; const long n = sysconf(_SC_NPROCESSORS_ONLN); R.Eval(); R.Check(long(hwy::TotalLogicalProcessors()) == n && long(t.lps.size()) == n, "topology/TotalLogicalProcessors", "here: %zu want %ld", t.lps.size(), n);
    if (!t.packages.empty()) { size_t total = 0, cores = 0; for (auto& p : t.packages) { for (auto& c : p.clusters) total += c.lps.Count(); for (auto& c : p.cores) cores += c.lps.Count(); } R.Check(long(total) == n && long(cores) == n, "topology/partition-here", "%zu %zu of %ld", total, cores, n); }
    const hwy::Cache* c = nullptr; (void)c; }
  Affinity(R.seed, 120 * m);
  const size_t slash = R.out.rfind('/'); const std::string base = slash == std::string::npos ? "/tmp" : R.out.substr(0, slash);
  for (int i = 0; i < 60 * m; ++i) {
    Machine mc = Make(g); g_root.clear(); std::string d = base + "/vt_topology_XXXXXX"; if (!mkdtemp(&d[0])) { perror("mkdtemp"); return 2; }
    g_root = d; g_online = long(mc.num); WriteMachine(mc); g_fault = i % 3 == 2;
    if (i % 12 == 0) R.Sample(mc.name);
    CheckMachine(mc); if (!mc.missing) CachesInChild(mc);
    g_fault = 0; g_root.clear(); g_online = 0; RemoveTree(d);
  }
  R.counters["redirected file opens"] = g_opens; R.counters["interrupted calls"] = g_interrupts; R.counters["short reads"] = g_short_reads;
  return R.Write();
}
