// Runs scenarios in forked children (fresh process state each) and merges what
// their monitors observed into this process' report.
#ifndef VERIF_COMMON_CHILD_H_
#define VERIF_COMMON_CHILD_H_
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <functional>
#include "report.h"
namespace vt {
inline std::string Hex(const std::string& s) { std::string o; for (unsigned char c : s) o += Fmt("%02x", c); return o.empty() ? "-" : o; }
inline std::string Unhex(const std::string& s) { std::string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += char(strtoul(s.substr(i, 2).c_str(), nullptr, 16)); return o; }
struct Children {
  struct Kid { pid_t pid; int fd; std::string name, text; uint64_t start; };
  std::vector<Kid> kids; int max; uint64_t limit_ns;
  explicit Children(int m, int seconds = 120) : max(m), limit_ns(uint64_t(seconds) * 1000000000ull) {}
  static uint64_t Ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return uint64_t(t.tv_sec) * 1000000000ull + uint64_t(t.tv_nsec); }
  // |name| up to '|' identifies a crash or hang of the child.
  void Start(const std::string& name, const std::function<void()>& f) {
    while (int(kids.size()) >= max) Pump();
    int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
    fflush(nullptr); const pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
      close(p[0]); Report& R = Rep(); R.evaluations = 0; R.counters.clear(); R.distinct.clear(); R.samples.clear(); R.violations.clear();
      f(); Send(p[1]); _exit(0);
    }
    close(p[1]); kids.push_back({pid, p[0], name, "", Ns()});
  }
  static void Send(int fd) {
    Report& R = Rep(); std::string s = Fmt("E %llu\n", (unsigned long long)R.evaluations.load());
    for (auto& c : R.counters) s += "C " + Hex(c.first) + Fmt(" %llu\n", (unsigned long long)c.second);
    for (uint64_t h : R.distinct) s += Fmt("H %llx\n", (unsigned long long)h);
    for (auto& x : R.samples) s += "S " + Hex(x) + "\n";
    for (auto& v : R.violations) s += "V " + Hex(v.first) + " " + Hex(v.second) + "\n";
    s += "done\n"; for (size_t i = 0; i < s.size();) { const ssize_t n = write(fd, s.data() + i, s.size() - i); if (n <= 0) break; i += size_t(n); }
  }
  void Merge(Kid& k) {
    Report& R = Rep(); int st = 0; while (waitpid(k.pid, &st, 0) < 0 && errno == EINTR) {} close(k.fd);
    const std::string cls = k.name.substr(0, k.name.find('|')); bool done = false; size_t at = 0;
    while (at < k.text.size()) {
      size_t e = k.text.find('\n', at); if (e == std::string::npos) break; const std::string l = k.text.substr(at, e - at); at = e + 1;
      char a[4200], b[4200]; unsigned long long n;
      if (l == "done") done = true;
      else if (l[0] == 'E') R.Eval(strtoull(l.c_str() + 2, nullptr, 10));
      else if (l[0] == 'H') R.See(strtoull(l.c_str() + 2, nullptr, 16));
      else if (l[0] == 'C' && sscanf(l.c_str(), "C %4199s %llu", a, &n) == 2) { const std::string k = Unhex(a); if (k.compare(0, 5, "most ") == 0) R.Max(k, n); else R.Count(k, n); }
      else if (l[0] == 'S' && sscanf(l.c_str(), "S %4199s", a) == 1) R.Sample(Unhex(a));
      else if (l[0] == 'V' && sscanf(l.c_str(), "V %4199s %4199s", a, b) == 2) R.Viol(Unhex(a), Unhex(b));
    }
    if (done) return;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { fprintf(stderr, "inconclusive: setup failed in %s\n", k.name.c_str()); exit(2); }
    R.Viol("crash " + cls, WIFSIGNALED(st) ? Fmt("killed by signal %d in ", WTERMSIG(st)) + k.name : Fmt("exit status %d in ", WEXITSTATUS(st)) + k.name);
  }
  void Pump() {
    std::vector<pollfd> p; for (auto& k : kids) p.push_back({k.fd, POLLIN, 0});
    poll(p.data(), p.size(), 500); const uint64_t now = Ns();
    for (size_t i = kids.size(); i-- > 0;) {
      Kid& k = kids[i]; bool end = false;
      if (p[i].revents) { char buf[65536]; const ssize_t n = read(k.fd, buf, sizeof(buf)); if (n > 0) k.text.append(buf, size_t(n)); else if (n == 0 || errno != EINTR) end = true; }
      if (!end && now - k.start > limit_ns) { kill(k.pid, SIGKILL); Rep().Viol("hang " + k.name.substr(0, k.name.find('|')), "still running after " + Fmt("%llu s: ", (unsigned long long)(limit_ns / 1000000000ull)) + k.name); int st; waitpid(k.pid, &st, 0); close(k.fd); kids.erase(kids.begin() + long(i)); continue; }
      if (end) { Merge(k); kids.erase(kids.begin() + long(i)); }
    }
  }
  void Wait() { while (!kids.empty()) Pump(); }
};
}  // namespace vt
#endif
