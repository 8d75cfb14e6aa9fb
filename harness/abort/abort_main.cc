// P24: Abort/Warn delivery, handler registration and termination. Every call
// that should not return runs in a forked child whose event stream (a pipe
// written by the handlers) and exit status the parent judges. Handler histories
// are compared with a register model; concurrent histories with a checker over
// time intervals.
#include "../common/report.h"
#include "../common/watch.h"
#include "hwy/base.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <algorithm>
#include <utility>
namespace vt {
static int g_pipe = -1;
static std::string g_child_bug;
static void Emit(char type, const char* file, int line, const char* msg, int who) {
  std::string s; auto put = [&](const void* p, size_t n) { s.append(static_cast<const char*>(p), n); };
  const uint32_t fl = uint32_t(strlen(file)), ml = uint32_t(strlen(msg)); put(&type, 1); put(&who, 4); put(&line, 4); put(&fl, 4); put(&ml, 4); put(file, fl); put(msg, ml);
  size_t o = 0; while (o < s.size()) { const ssize_t r = write(g_pipe, s.data() + o, s.size() - o); if (r <= 0) { if (errno == EINTR) continue; _exit(99); } o += size_t(r); }
}
struct Event { char type; int who, line; std::string file, msg; };
struct Outcome { std::vector<Event> ev; std::string err; int status = 0; bool timeout = false; };
static std::vector<Event> Decode(const std::string& s) {
  std::vector<Event> r; size_t o = 0;
  while (o + 17 <= s.size()) { Event e; uint32_t fl, ml; e.type = s[o]; memcpy(&e.who, &s[o + 1], 4); memcpy(&e.line, &s[o + 5], 4); memcpy(&fl, &s[o + 9], 4); memcpy(&ml, &s[o + 13], 4); o += 17; if (o + fl + ml > s.size()) break; e.file = s.substr(o, fl); e.msg = s.substr(o + fl, ml); o += fl + ml; r.push_back(e); }
  return r;
}
template <class F> static Outcome InChild(const F& f) {
  int ev[2], er[2]; if (pipe(ev) || pipe(er)) { perror("pipe"); _exit(2); }
  fflush(nullptr); const pid_t pid = fork(); if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0) {
    close(ev[0]); close(er[0]); dup2(er[1], 2); close(er[1]); g_pipe = ev[1]; rlimit z{0, 0}; setrlimit(RLIMIT_CORE, &z);
    for (int s : {SIGABRT, SIGILL, SIGTRAP, SIGSEGV, SIGALRM}) signal(s, SIG_DFL);
    alarm(60); f(); Emit('R', "", 0, "", 0); _exit(42);
  }
  close(ev[1]); close(er[1]); Outcome o; std::string raw; bool a = true, b = true; char buf[4096];
  while (a || b) {
    pollfd p[2] = {{a ? ev[0] : -1, POLLIN, 0}, {b ? er[0] : -1, POLLIN, 0}}; if (poll(p, 2, -1) < 0) continue;
    if (p[0].revents) { const ssize_t n = read(ev[0], buf, sizeof(buf)); if (n > 0) raw.append(buf, size_t(n)); else a = false; }
    if (p[1].revents) { const ssize_t n = read(er[0], buf, sizeof(buf)); if (n > 0) o.err.append(buf, size_t(n)); else b = false; }
  }
  close(ev[0]); close(er[0]); while (waitpid(pid, &o.status, 0) < 0 && errno == EINTR) {}
  o.timeout = WIFSIGNALED(o.status) && WTERMSIG(o.status) == SIGALRM; o.ev = Decode(raw); return o;
}
// The handlers installed by children and by the history checks.
static int g_mode = 0, g_after_abort_code = 7;
static void AbortReturns(const char* f, int l, const char* m) { Emit('A', f, l, m, 1); }
static void AbortExits(const char* f, int l, const char* m) { Emit('A', f, l, m, 2); _exit(g_after_abort_code); }
static hwy::AbortFunc g_prev_abort; static void AbortChains(const char* f, int l, const char* m) { Emit('A', f, l, m, 3); if (g_prev_abort) g_prev_abort(f, l, m); }
static void AbortWarns(const char* f, int l, const char* m) { Emit('A', f, l, m, 4); hwy::Warn("w.cc", 9, "nested %d", 5); Emit('a', "", 0, "", 4); }
static void AbortSwaps(const char* f, int l, const char* m) { Emit('A', f, l, m, 5); hwy::SetAbortFunc(&AbortReturns); }
static void WarnReturns(const char* f, int l, const char* m) { Emit('W', f, l, m, 1); }
static hwy::WarnFunc g_prev_warn; static void WarnChains(const char* f, int l, const char* m) { Emit('W', f, l, m, 3); if (g_prev_warn) g_prev_warn(f, l, m); }
static void WarnAborts(const char* f, int l, const char* m) { Emit('W', f, l, m, 4); hwy::Abort("fromwarn.cc", 3, "escalated"); }
static bool Terminated(const Outcome& o) { return WIFSIGNALED(o.status) && (WTERMSIG(o.status) == SIGABRT || WTERMSIG(o.status) == SIGILL || WTERMSIG(o.status) == SIGTRAP); }
static std::string Base(const std::string& f) { const size_t p = f.find_last_of("/\\"); return p == std::string::npos ? f : f.substr(p + 1); }
static std::string Status(const Outcome& o) { return WIFSIGNALED(o.status) ? Fmt("signal %d", WTERMSIG(o.status)) : Fmt("exit %d", WEXITSTATUS(o.status)); }
static std::string RandText(Rng& g, size_t n) { std::string s; static const char* special = "%sn%d\\\"/ \t%%x"; while (s.size() < n) s += g.below(4) ? char('!' + g.below(90)) : special[g.below(13)]; for (auto& c : s) if (!c) c = '_'; return s; }
static size_t Len(Rng& g) { switch (g.below(6)) { case 0: return g.below(5); case 1: return 790 + g.below(20); case 2: return g.below(8000); case 3: return 799 + g.below(3); default: return g.below(200); } }
// The message a reader must see: the formatted text; only a cut at the documented internal limit may shorten it.
static bool Matches(const std::string& got, const std::string& want) { return got == want || (want.size() >= 400 && got.size() >= 400 && got.size() < want.size() && want.compare(0, got.size(), got) == 0); }
static std::string RandFile(Rng& g) { static const char* kinds[] = {"a.cc", "/x/y/a.cc", "C:\\dir\\b.cc", "mix/of\\c.cc", "trailing/", "", "/", "%s%n%d.cc", "dir.with.dot/noext"}; return g.below(6) ? kinds[g.below(9)] : RandText(g, g.below(600)); }
static void OneAbort(Rng& g, uint64_t idx) {
  Report& R = Rep(); const std::string file = RandFile(g); const int line = g.below(4) ? int(g.below(5000)) : int(g()); const std::string text = RandText(g, Len(g)); const int num = int(g()); const double dbl = double(int64_t(g())) / 1024;
  const int handler = int(g.below(7)), style = int(g.below(4)), history = int(g.below(3)); std::string want;
  if (style == 0) want = text; else if (style == 1) want = Fmt("%d and ", num) + text; else if (style == 2) want = text + Fmt(" at %.3f", dbl); else want = "plain";
  const Outcome o = InChild([&] {
    if (history == 1) { hwy::SetAbortFunc(&AbortExits); hwy::SetAbortFunc(nullptr); } if (history == 2) { hwy::SetAbortFunc(&AbortSwaps); g_prev_abort = hwy::SetAbortFunc(&AbortReturns); hwy::SetAbortFunc(nullptr); hwy::SetWarnFunc(&WarnReturns); hwy::SetWarnFunc(nullptr); }
    if (handler == 1) hwy::SetAbortFunc(&AbortReturns); if (handler == 2) hwy::SetAbortFunc(&AbortExits);
    if (handler == 3) { hwy::SetAbortFunc(&AbortReturns); g_prev_abort = hwy::SetAbortFunc(&AbortChains); }
    if (handler == 4) { hwy::SetWarnFunc(&WarnReturns); hwy::SetAbortFunc(&AbortWarns); } if (handler == 5) hwy::SetAbortFunc(&AbortSwaps); if (handler == 6) { hwy::SetAbortFunc(&AbortReturns); hwy::SetAbortFunc(nullptr); }
    if (style == 0) hwy::Abort(file.c_str(), line, "%s", text.c_str()); else if (style == 1) hwy::Abort(file.c_str(), line, "%d and %s", num, text.c_str()); else if (style == 2) hwy::Abort(file.c_str(), line, "%s at %.3f", text.c_str(), dbl); else hwy::Abort(file.c_str(), line, "plain");
  });
  R.Eval(); R.See(Mix(Mix(uint64_t(handler * 16 + style * 4 + history), HashBytes(1, want.data(), want.size())), HashBytes(2, file.data(), file.size()))); R.Count(Fmt("abort_handler_kind_%d", handler)); (void)idx;
  const std::string ctx = Fmt("handler %d style %d message length %zu file length %zu", handler, style, want.size(), file.size());
  if (o.timeout) { R.Viol("Abort/hang", ctx); return; }
  std::vector<Event> ev = o.ev; if (!ev.empty() && ev.back().type == 'R') { R.Viol("Abort/returns", ctx); return; }
  if (handler == 2) R.Check(WIFEXITED(o.status) && WEXITSTATUS(o.status) == g_after_abort_code, "Abort/handler-exit", "%s: %s", ctx.c_str(), Status(o).c_str());
  else R.Check(Terminated(o), "Abort/termination", "%s: %s; stderr: %.200s", ctx.c_str(), Status(o).c_str(), o.err.c_str());
  const bool dflt = handler == 0 || handler == 6; std::string types, want_types = dflt ? "" : handler == 3 ? "AA" : handler == 4 ? "AWa" : "A"; for (auto& e : ev) types += e.type;
  if (!R.Check(types == want_types, "Abort/events", "%s: handler events '%s', want '%s'", ctx.c_str(), types.c_str(), want_types.c_str())) return;
  static const int who[] = {0, 1, 2, 3, 4, 5, 0}; size_t i = 0;
  for (auto& e : ev) if (e.type == 'A') { R.Check(e.file == file && e.line == line && Matches(e.msg, want), "Abort/report", "%s: got %.60s:%d %.80s (length %zu)", ctx.c_str(), e.file.c_str(), e.line, e.msg.c_str(), e.msg.size()); R.Check(e.who == (i == 1 ? 1 : who[handler]), "Abort/handler", "%s: handler %d called", ctx.c_str(), e.who); ++i; }
    else if (e.type == 'W') R.Check(e.file == "w.cc" && e.line == 9 && e.msg == "nested 5", "Warn/report", "from inside an abort handler");
  const std::string head = "Abort at " + Base(file) + Fmt(":%d: ", line);
  if (dflt) { const size_t nl = o.err.find('\n', 0); std::string rest = o.err.compare(0, head.size(), head) ? "" : o.err.substr(head.size()); (void)nl; size_t keep = 0; while (keep < rest.size() && keep < want.size() && rest[keep] == want[keep]) ++keep;
    R.Check(o.err.compare(0, head.size(), head) == 0 && keep < rest.size() && rest[keep] == '\n' && Matches(rest.substr(0, keep), want), "Abort/default-report", "%s: stderr %.200s", ctx.c_str(), o.err.c_str());
    size_t n = 0; for (size_t p = o.err.find("Abort at"); p != std::string::npos; p = o.err.find("Abort at", p + 1)) ++n; if (want.find("Abort at") == std::string::npos) R.Check(n == 1, "Abort/default-once", "%s: %zu reports", ctx.c_str(), n);
  } else R.Check(o.err.find("Abort at") == std::string::npos || want.find("Abort at") != std::string::npos, "Abort/default-despite-handler", "%s: %.100s", ctx.c_str(), o.err.c_str());
}
// Macros: condition evaluated once, text of the condition not used as a format, file and line of the call.
static int g_calls = 0, g_line = 0; static bool Cond(bool v) { ++g_calls; return v; }
static void Macros() {
  Report& R = Rep();
  struct Case { const char* name; void (*f)(int&); const char* msg; bool aborts; };
  static const Case cases[] = {
      {"HWY_ASSERT false", [](int& l) { l = __LINE__; HWY_ASSERT(Cond(false)); }, "Assert Cond(false): ", true},
      {"HWY_ASSERT true", [](int& l) { l = __LINE__; HWY_ASSERT(Cond(true)); }, "", false},
      {"HWY_ASSERT percent", [](int& l) { int d = 3; l = __LINE__; HWY_ASSERT(d % 2 == 0 && "%s%d%n"); }, "Assert d % 2 == 0 && \"%s%d%n\": ", true},
      {"HWY_ASSERT_M false", [](int& l) { l = __LINE__; HWY_ASSERT_M(Cond(false), "why 100%"); }, "Assert Cond(false): why 100%", true},
      {"HWY_ASSERT_M true", [](int& l) { l = __LINE__; HWY_ASSERT_M(Cond(true), "why"); }, "", false},
      {"HWY_ASSERT comma", [](int& l) { l = __LINE__; HWY_ASSERT((std::pair<int, int>(1, 2).first == 2)); }, "Assert (std::pair<int, int>(1, 2).first == 2): ", true},
      {"HWY_ASSERT in else", [](int& l) { l = __LINE__; if (Cond(true)) HWY_ASSERT(g_calls == 1); else HWY_ASSERT(g_calls == 0); }, "", false},
      {"HWY_ABORT", [](int& l) { l = __LINE__; HWY_ABORT("%s-%d", "x", 7); }, "x-7", true},
      {"HWY_ABORT no arguments", [](int& l) { l = __LINE__; HWY_ABORT("nothing"); }, "nothing", true},
#if HWY_IS_DEBUG_BUILD
      {"HWY_DASSERT false", [](int& l) { l = __LINE__; HWY_DASSERT(Cond(false)); }, "Assert Cond(false): ", true},
      {"HWY_DASSERT_M false", [](int& l) { l = __LINE__; HWY_DASSERT_M(Cond(false), "m"); }, "Assert Cond(false): m", true},
      {"HWY_DASSERT true", [](int& l) { l = __LINE__; HWY_DASSERT(Cond(true)); }, "", false},
#endif
  };
  for (const Case& c : cases) {
    const Outcome o = InChild([&] { hwy::SetAbortFunc([](const char* f, int l, const char* m) { Emit('A', f, l - g_line, m, g_calls); }); g_calls = 0; c.f(g_line); Emit('L', "", 0, "", g_calls); });
    R.Eval(); R.See(HashBytes(3, c.name, strlen(c.name)));
    if (c.aborts) { R.Check(o.ev.size() == 1 && o.ev[0].type == 'A' && o.ev[0].msg == c.msg && Base(o.ev[0].file) == Base(__FILE__) && o.ev[0].line == 0 && o.ev[0].who <= 1 && Terminated(o), std::string("macro ") + c.name, "events %zu, message '%s', line off by %d, condition evaluated %d times, %s", o.ev.size(), o.ev.empty() ? "" : o.ev[0].msg.c_str(), o.ev.empty() ? 0 : o.ev[0].line, o.ev.empty() ? 0 : o.ev[0].who, Status(o).c_str()); }
    else R.Check(o.ev.size() == 2 && o.ev[0].type == 'L' && o.ev[0].who == 1 && WIFEXITED(o.status) && WEXITSTATUS(o.status) == 42, std::string("macro ") + c.name, "events %zu, condition evaluated %d times, %s", o.ev.size(), o.ev.empty() ? 0 : o.ev[0].who, Status(o).c_str());
  }
}
// ------------------------------------------------------------ histories of handlers against a register model
template <int K> static void NWarn(const char* f, int l, const char* m) { Emit('W', f, l, m, K); }
template <int K> static void NAbort(const char* f, int l, const char* m) { Emit('A', f, l, m, K); }
static hwy::WarnFunc kW[] = {nullptr, NWarn<1>, NWarn<2>, NWarn<3>, NWarn<4>}; static hwy::AbortFunc kA[] = {nullptr, NAbort<1>, NAbort<2>, NAbort<3>, NAbort<4>};
static void History(Rng& g) {
  Report& R = Rep(); const int steps = 3 + int(g.below(25)); struct Step { int op, arg; std::string text, file; int line; }; std::vector<Step> st;
  for (int i = 0; i < steps; ++i) { Step s; s.op = int(g.below(6)); s.arg = int(g.below(5)); s.text = RandText(g, Len(g)); s.file = RandFile(g); s.line = int(g.below(100000)); st.push_back(s); }
  const bool end = g.below(2);
  const Outcome o = InChild([&] {
    int w = 0, a = 0;
    auto bug = [&](const char* k, int i) { Emit('B', k, i, "", 0); };
    for (int i = 0; i < steps; ++i) { const Step& s = st[size_t(i)];
      switch (s.op) {
        case 0: if (hwy::SetWarnFunc(kW[s.arg]) != kW[w]) bug("SetWarnFunc/previous", i); w = s.arg; break;
        case 1: if (hwy::SetAbortFunc(kA[s.arg]) != kA[a]) bug("SetAbortFunc/previous", i); a = s.arg; break;
        case 2: if (hwy::GetWarnFunc() != kW[w]) bug("GetWarnFunc", i); break;
        case 3: if (hwy::GetAbortFunc() != kA[a]) bug("GetAbortFunc", i); break;
        default: { Emit('b', "", i, "", w); hwy::Warn(s.file.c_str(), s.line, "%s#%d", s.text.c_str(), i); Emit('e', "", i, "", w); break; }
      } }
    if (end) { Emit('b', "", -1, "", a); hwy::Abort("end.cc", 12, "%s", "done"); }
  });
  R.Eval(uint64_t(steps)); R.Count("handler_history_steps", uint64_t(steps)); uint64_t h = 5; for (auto& s : st) h = Mix(h, uint64_t(s.op * 8 + s.arg)); R.See(h);
  std::string err = o.err; size_t pos = 0;
  for (size_t i = 0; i < o.ev.size(); ++i) { const Event& e = o.ev[i];
    if (e.type == 'B') R.Viol(e.file, Fmt("step %d of a random history: not the handler the history implies", e.line));
    if (e.type != 'b') continue;
    if (e.line < 0) { // abort
      size_t n = 0; for (size_t j = i + 1; j < o.ev.size(); ++j) { n += o.ev[j].type == 'A'; R.Check(o.ev[j].type == 'A' && o.ev[j].who == e.who && o.ev[j].file == "end.cc" && o.ev[j].line == 12 && o.ev[j].msg == "done", "Abort/history", "event %c handler %d, current %d", o.ev[j].type, o.ev[j].who, e.who); }
      R.Check(n == (e.who ? 1u : 0u) && Terminated(o), "Abort/history", "%zu deliveries with handler %d, %s", n, e.who, Status(o).c_str()); if (!e.who) R.Check(err.find("Abort at end.cc:12: done\n", pos) != std::string::npos, "Abort/default-report", "after a history"); break;
    }
    const Step& s = st[size_t(e.line)]; const std::string want = s.text + Fmt("#%d", e.line); size_t n = 0, j = i + 1;
    for (; j < o.ev.size() && o.ev[j].type != 'e'; ++j) { ++n; R.Check(o.ev[j].type == 'W' && o.ev[j].who == e.who && o.ev[j].file == s.file && o.ev[j].line == s.line && Matches(o.ev[j].msg, want), "Warn/report", "event %c handler %d (current %d) line %d message length %zu of %zu", o.ev[j].type, o.ev[j].who, e.who, o.ev[j].line, o.ev[j].msg.size(), want.size()); }
    R.Check(j < o.ev.size(), "Warn/returns", "no return recorded"); R.Check(n == (e.who ? 1u : 0u), "Warn/once", "%zu deliveries, handler %d", n, e.who); R.Count("warnings");
    if (!e.who) { const std::string head = "Warn at " + Base(s.file) + Fmt(":%d: ", s.line); R.Check(err.compare(pos, head.size(), head) == 0, "Warn/default-report", "stderr %.150s", err.substr(pos, 150).c_str()); const size_t b = pos + head.size(); size_t k = 0; while (b + k < err.size() && k < want.size() && err[b + k] == want[k]) ++k; R.Check(b + k < err.size() && err[b + k] == '\n' && Matches(want.substr(0, k), want), "Warn/default-report", "text after %zu of %zu characters", k, want.size()); pos = b + k + 1; }
  }
  if (!end) R.Check(WIFEXITED(o.status) && WEXITSTATUS(o.status) == 42 && o.ev.back().type == 'R', "Warn/returns", "%s", Status(o).c_str());
}
static void Escalation() {
  Report& R = Rep(); R.Eval();
  const Outcome o = InChild([&] { hwy::SetAbortFunc(&AbortReturns); hwy::SetWarnFunc(&WarnAborts); hwy::Warn("a.cc", 1, "x"); });
  R.Check(o.ev.size() == 2 && o.ev[0].type == 'W' && o.ev[1].type == 'A' && o.ev[1].msg == "escalated" && o.ev[1].file == "fromwarn.cc" && Terminated(o), "Warn/escalation", "%zu events, %s", o.ev.size(), Status(o).c_str());
  const Outcome c = InChild([&] { hwy::SetWarnFunc(&WarnReturns); g_prev_warn = hwy::SetWarnFunc(&WarnChains); hwy::Warn("a.cc", 1, "x%dy", 3); });
  R.Check(c.ev.size() == 3 && c.ev[0].who == 3 && c.ev[1].who == 1 && c.ev[1].msg == "x3y" && c.ev[2].type == 'R', "Warn/chaining", "%zu events", c.ev.size());
}
// ------------------------------------------------------------ concurrent histories
// Each handler is installed at most once per round; a warning may reach handler k only if k could have been current between the call and its return.
struct Hit { int who; uint64_t id; };
static thread_local std::vector<Hit>* t_hits = nullptr;
template <int K> static void CWarn(const char*, int line, const char* m) { if (t_hits) t_hits->push_back({K, uint64_t(line)}); if (strcmp(m, "c") != 0) Rep().Viol("Warn/concurrent-report", m); }
template <int K> static void CAbort(const char*, int line, const char* m) { (void)line; (void)m; }
template <size_t... I> static std::vector<hwy::WarnFunc> AllW(std::index_sequence<I...>) { return {CWarn<int(I)>...}; }
template <size_t... I> static std::vector<hwy::AbortFunc> AllA(std::index_sequence<I...>) { return {CAbort<int(I)>...}; }
struct Inst { uint64_t b = 0, e = 0, out = ~0ull; int prev = -2; };
static void ConcurrentRound(Rng& g, int threads) {
  Report& R = Rep(); static const std::vector<hwy::WarnFunc> W = AllW(std::make_index_sequence<128>()); static const std::vector<hwy::AbortFunc> A = AllA(std::make_index_sequence<128>());
  auto idw = [&](hwy::WarnFunc f) { for (size_t i = 0; i < W.size(); ++i) if (W[i] == f) return int(i); return -1; }; auto ida = [&](hwy::AbortFunc f) { for (size_t i = 0; i < A.size(); ++i) if (A[i] == f) return int(i); return -1; };
  hwy::SetWarnFunc(W[0]); hwy::SetAbortFunc(A[0]); std::vector<Inst> iw(128), ia(128); iw[0].b = iw[0].e = ia[0].b = ia[0].e = NowNs(); std::vector<std::thread> ts; std::atomic<int> ready{0}; const uint64_t s0 = g();
  struct WarnCall { uint64_t b, e; int who; size_t n; }; std::vector<std::vector<WarnCall>> calls{size_t(threads)}; std::atomic<int> active{threads};
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] {
    Rng r(s0 + uint64_t(t)); std::vector<Hit> hits; t_hits = &hits; ready++; while (ready < threads) {}
    const bool setter = t % 2 == 0; const int per = 127 / ((threads + 1) / 2), first = 1 + (t / 2) * per;
    for (int i = 0; i < (setter ? per : 4000); ++i) {
      if (!setter && active.load() <= threads / 2 && i > 50) break;
      if (setter) { const int k = first + i; iw[size_t(k)].b = NowNs(); const auto p = hwy::SetWarnFunc(W[size_t(k)]); iw[size_t(k)].e = NowNs(); iw[size_t(k)].prev = idw(p); ia[size_t(k)].b = NowNs(); const auto q = hwy::SetAbortFunc(A[size_t(k)]); ia[size_t(k)].e = NowNs(); ia[size_t(k)].prev = ida(q); if (r.below(3) == 0) for (uint64_t z = r.below(300); z; --z) asm volatile("pause"); }
      else { hits.clear(); WarnCall c; c.b = NowNs(); hwy::Warn("c.cc", i, "%s", "c"); c.e = NowNs(); c.n = hits.size(); c.who = hits.empty() ? -1 : hits[0].who; if (!hits.empty() && hits[0].id != uint64_t(i)) R.Viol("Warn/concurrent-report", "line of another call"); calls[size_t(t)].push_back(c); }
    }
    active--; t_hits = nullptr;
  });
  for (auto& t : ts) t.join();
  const int setters = (threads + 1) / 2, per = 127 / setters, used = setters * per; const int last_w = idw(hwy::SetWarnFunc(nullptr)), last_a = ida(hwy::SetAbortFunc(nullptr));
  uint64_t h = 11;
  for (int which = 0; which < 2; ++which) { auto& in = which ? ia : iw; const int last = which ? last_a : last_w; const char* nm = which ? "SetAbortFunc/chain" : "SetWarnFunc/chain"; std::vector<int> seen(128); bool ok = true;
    for (int k = 1; k <= used; ++k) { const int p = in[size_t(k)].prev; if (p < 0 || p > used) { R.Viol(nm, Fmt("call %d returned an unknown handler", k)); ok = false; } else { seen[size_t(p)]++; if (in[size_t(p)].b > in[size_t(k)].e) { R.Viol(nm, "returned a handler that was not installed yet"); } in[size_t(p)].out = in[size_t(k)].e; h = Mix(h, uint64_t(p)); } }
    if (last >= 0) seen[size_t(last)]++; for (int k = 0; k <= used && ok; ++k) if (seen[size_t(k)] != 1) { R.Viol(nm, Fmt("handler %d was returned by %d later calls, want exactly 1", k, seen[size_t(k)])); break; } R.Eval(uint64_t(used)); }
  R.See(h);
  for (auto& v : calls) for (auto& c : v) { R.Eval(); if (!R.Check(c.n == 1, "Warn/concurrent-once", "%zu deliveries", c.n)) continue; const Inst& k = iw[size_t(c.who)]; R.Check(k.b <= c.e && c.b <= k.out, "Warn/concurrent-stale", "handler %d got a warning outside its installation (installed %lld ns after the call ended, or replaced %lld ns before it began)", c.who, (long long)(k.b - c.e), (long long)(c.b - k.out)); }
  R.Count("concurrent_rounds"); for (auto& v : calls) R.Count("concurrent_warnings", v.size());
}
static void ConcurrentAborts(Rng& g) {
  Report& R = Rep(); R.Eval(); const bool leave = g.below(2); const int n = 2 + int(g.below(3)); const uint64_t s = g();
  const Outcome o = InChild([&] { hwy::SetAbortFunc(leave ? &AbortExits : &AbortReturns); std::atomic<int> ready{0}; std::vector<std::thread> ts; for (int t = 0; t < n; ++t) ts.emplace_back([&, t] { ready++; while (ready < n) {} Rng r(s + uint64_t(t)); for (uint64_t z = r.below(3000); z; --z) asm volatile("pause"); hwy::Abort("thr.cc", t, "from %d", t); }); for (auto& t : ts) t.join(); });
  std::set<int> who; bool ok = !o.ev.empty(); for (auto& e : o.ev) ok &= e.type == 'A' && e.file == "thr.cc" && e.msg == Fmt("from %d", e.line) && who.insert(e.line).second;
  R.Check(ok && (leave ? WIFEXITED(o.status) && WEXITSTATUS(o.status) == g_after_abort_code : Terminated(o)), "Abort/concurrent", "%zu events, %s", o.ev.size(), Status(o).c_str()); R.Count("concurrent_abort_runs"); R.See(Mix(17, o.ev.size() * 8 + (o.ev.empty() ? 0 : uint64_t(o.ev[0].line))));
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); const char* sc = getenv("VT_SCALE"); const double scale = (R.thorough ? 12 : 1) * (sc ? atof(sc) : 1); Rng g(R.seed * 104729 + 24);
  if (R.Want("serial")) {
    Macros(); Escalation();
    for (uint64_t i = 0; i < uint64_t(2500 * scale); ++i) OneAbort(g, i);
    for (uint64_t i = 0; i < uint64_t(2000 * scale); ++i) History(g);
    for (uint64_t i = 0; i < uint64_t(300 * scale); ++i) ConcurrentAborts(g);
  }
  if (R.Want("threads")) { StartWatchdog(120); for (uint64_t i = 0; i < uint64_t(1500 * scale); ++i) { Watched w("concurrent handlers"); ConcurrentRound(g, 4 + 2 * int(g.below(3))); } }
  R.Sample(Fmt("debug assertions compiled in: %d", HWY_IS_DEBUG_BUILD));
  return R.Write();
}
