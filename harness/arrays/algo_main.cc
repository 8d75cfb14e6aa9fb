// P14: contrib/algo against scalar loops, arrays flush with inaccessible pages.
#include "../common/cpu.h"
#include "../common/report.h"
#include "../common/watch.h"
#include "arr.h"
#include "buf.h"
#include <cmath>
#include <memory>
namespace vt {
std::vector<ArrFn>& ArrFns() { static auto* v = new std::vector<ArrFn>; return *v; }
struct Bufs { Buf b[3]; Bufs() : b{Buf(6), Buf(6), Buf(6)} {} };
template <class T> static T FromU(uint64_t u) { T t; memcpy(&t, &u, sizeof t); return t; }
template <class T> static uint64_t Raw(T t) { uint64_t u = 0; memcpy(&u, &t, sizeof t); return u; }
template <class T> static T Value(Rng& g, int style) {
  if (style == 0) return T(g.below(6));                        // many duplicates
  if (style == 1 || std::is_floating_point<T>::value) { if (std::is_floating_point<T>::value && g.below(12) == 0) { const double s[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, 1e-300}; return T(s[g.below(6)]); } return T(int64_t(g.below(200)) - 100); }
  return FromU<T>(g());
}
template <class T> static void One(const ArrFn& f, size_t n, bool end, size_t off, Rng& g, Bufs& B, std::unordered_set<uint64_t>& seen, uint64_t& evals) {
  Report& R = Rep(); const std::string op = f.op; const size_t S = sizeof(T), L = f.lanes;
  const int style = int(g.below(3)); const size_t ob = off * S;
  std::vector<T> x(n), x1(n), x2(n); for (size_t i = 0; i < n; ++i) { x[i] = Value<T>(g, style); x1[i] = Value<T>(g, int(g.below(3))); x2[i] = Value<T>(g, 2); }
  T a = Value<T>(g, style), b = Value<T>(g, style);
  if (n && g.below(3) == 0) a = x[g.below(n)];
  if (n && g.below(2) == 0) b = x[g.below(n)];
  if ((op == "Find" || op == "FindIf") && n && g.below(4)) {  // exactly one match, often near either end or in the remainder
    for (auto& v : x) v = T(50); a = op == "Find" ? T(7) : T(8); size_t k = g.below(4) == 0 ? n - 1 : g.below(4) == 0 ? 0 : g.below(n); if (g.below(3)) x[k] = T(7); if (g.below(3) == 0) x[g.below(n)] = T(7);
    if (op == "Find" && g.below(2)) { a = T(0); for (auto& v : x) v = v == T(7) ? T(0) : T(50); }  // the value of masked-off lanes
  }
  Call c; c.n = n; c.bits[0] = Raw(a); c.bits[1] = Raw(b);
  const bool out = op == "Fill" || op == "Copy" || op == "CopyIf" || op == "Generate";          // p[0] write-only
  const bool inout = op.compare(0, 9, "Transform") == 0 || op.compare(0, 7, "Replace") == 0;
  const bool log = op == "Foreach";
  std::vector<T> w; size_t want_ret = 0; bool ret = false;
  auto lt = [](T p, T q) { return p < q; };
  if (op == "Fill") w.assign(n, a);
  if (op == "Copy") w = x;
  if (op == "CopyIf") { for (T v : x) if (lt(v, a)) w.push_back(v); ret = true; want_ret = w.size(); }
  if (op == "Find") { ret = true; want_ret = n; for (size_t i = n; i-- > 0;) if (x[i] == a) want_ret = i; }
  if (op == "FindIf") { ret = true; want_ret = n; for (size_t i = n; i-- > 0;) if (lt(x[i], a)) want_ret = i; }
  if (op == "Generate") for (size_t i = 0; i < n; ++i) w.push_back(FromU<T>(uint64_t(i) ^ 0x33));
  if (op == "Foreach") { w = x; while (w.size() % L) w.push_back(a); ret = true; want_ret = w.size(); }
  if (op == "Transform") for (T v : x) w.push_back(FromU<T>(Raw(v) ^ 0x5A));
  if (op == "Transform1") for (size_t i = 0; i < n; ++i) w.push_back(FromU<T>(~Raw(x1[i]) & Raw(x[i])));
  if (op == "Transform2") for (size_t i = 0; i < n; ++i) w.push_back(FromU<T>((~Raw(x1[i]) & Raw(x[i])) ^ (Raw(x2[i]) | Raw(x1[i]))));
  if (op == "Replace") for (T v : x) w.push_back(v == b ? a : v);
  if (op == "ReplaceIf") for (T v : x) w.push_back(lt(v, b) ? a : v);
  // p[0]
  const size_t cap0 = op == "CopyIf" || log ? w.size() : out || inout ? n : 0;
  const size_t slack = op == "CopyIf" || log ? 2 * L * S : 0;  // documented for CopyIf, ours for the log
  uint8_t* p0 = B.b[0].Place(cap0 * S, end, ob, slack); c.m = cap0 + (log ? 2 * L : 0); c.p[0] = p0;
  if (inout && n) memcpy(p0, x.data(), n * S);
  const bool in1 = op == "Copy" || op == "CopyIf" || op == "Find" || op == "FindIf" || op == "Foreach", in1t = op == "Transform1" || op == "Transform2";
  const size_t ob1 = (off ? (off * 3 + 1) % 7 : 0) * S;
  uint8_t* p1 = B.b[1].Place(in1 || in1t ? n * S : 0, end, ob1); c.p[1] = p1; if (n && in1) memcpy(p1, x.data(), n * S); if (n && in1t) memcpy(p1, x1.data(), n * S);
  uint8_t* p2 = B.b[2].Place(op == "Transform2" ? n * S : 0, end, ob); c.p[2] = p2; if (n && op == "Transform2") memcpy(p2, x2.data(), n * S);
  const std::string key = op + "/" + TyName(f.ty) + "/" + f.target + (f.capped ? "/capped" : "");
  const std::string d = Fmt("n=%zu lanes %zu %s offset %zu", n, L, end ? "ends at the guard page" : "starts at the guard page", off);
  const int sig = Guarded([&] { f.fn(c); });
  evals += 1;
  if (!R.Check(sig == 0, key + "/fault", "%s: signal %d at byte %td relative to p0, %td p1, %td p2", d.c_str(), sig, static_cast<uint8_t*>(tl_addr) - p0, static_cast<uint8_t*>(tl_addr) - p1, static_cast<uint8_t*>(tl_addr) - p2)) return;
  if (ret) R.Check(c.ret == want_ret, key + "/result", "%s: got %llu want %zu", d.c_str(), (unsigned long long)c.ret, want_ret);
  if (out || inout || log) if (!w.empty() && memcmp(p0, w.data(), w.size() * S) != 0) {
    size_t i = 0; while (memcmp(p0 + i * S, &w[i], S) == 0) ++i;
    R.Viol(key + "/content", d + Fmt(": element %zu is 0x%llx want 0x%llx", i, (unsigned long long)Raw(reinterpret_cast<T*>(p0)[i]), (unsigned long long)Raw(w[i])));
  }
  R.Check(B.b[0].Clean(), key + "/writes-outside", "%s", d.c_str());
  R.Check(B.b[1].Clean() && B.b[2].Clean() && (!in1 || n == 0 || memcmp(p1, x.data(), n * S) == 0) && (!in1t || n == 0 || memcmp(p1, x1.data(), n * S) == 0), key + "/input-modified", "%s", d.c_str());
  uint64_t h = HashBytes(HashBytes(want_ret * 31 + n, op.data(), op.size()), w.data(), w.size() * S); seen.insert(Mix(h, f.ty));
}
static void RunFn(const ArrFn& f, uint64_t seed) {
  Report& R = Rep(); Rng g(HashBytes(seed, f.op, strlen(f.op)) + f.ty * 977 + f.lanes); Bufs B; std::unordered_set<uint64_t> seen; uint64_t ev = 0;
  Watched w("%s|%s %s", f.op, f.target, TyName(f.ty));
  const size_t L = f.lanes, top = 3 * L + 3;
  auto go = [&](size_t n, bool end, size_t off) {
    switch (f.ty) {
      case U8: One<uint8_t>(f, n, end, off, g, B, seen, ev); break; case I8: One<int8_t>(f, n, end, off, g, B, seen, ev); break;
      case U16: One<uint16_t>(f, n, end, off, g, B, seen, ev); break; case I16: One<int16_t>(f, n, end, off, g, B, seen, ev); break;
      case U32: One<uint32_t>(f, n, end, off, g, B, seen, ev); break; case I32: One<int32_t>(f, n, end, off, g, B, seen, ev); break;
      case U64: One<uint64_t>(f, n, end, off, g, B, seen, ev); break; case I64: One<int64_t>(f, n, end, off, g, B, seen, ev); break;
      case F32: One<float>(f, n, end, off, g, B, seen, ev); break; case F64: One<double>(f, n, end, off, g, B, seen, ev); break;
    }
  };
  const int reps = R.thorough ? 12 : Quick(4);
  for (int r = 0; r < reps; ++r) {
    for (size_t n = 0; n <= top; ++n) for (int end = 0; end < 2; ++end) { go(n, end, 0); if (n < 40 || n % 5 == 0) go(n, end, 1 + g.below(9)); }
    for (int k = 0; k < 6; ++k) go(g.below(1900), g.below(2), g.below(4) ? 0 : 1 + g.below(9));
  }
  R.SeeAll(seen); R.Eval(ev);
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); InstallFaultHandler(); StartWatchdog(60);
  std::vector<const ArrFn*> fs; for (const ArrFn& f : ArrFns()) { if (!CpuSupports(f.target)) { R.skipped.insert(f.target); continue; } R.targets.insert(f.target); fs.push_back(&f); }
  std::atomic<size_t> next{0}; std::vector<std::thread> ts;
  for (int t = 0; t < R.threads; ++t) ts.emplace_back([&] { for (size_t i; (i = next++) < fs.size();) RunFn(*fs[i], R.seed); });
  for (auto& t : ts) t.join();
  R.counters["kernels"] = fs.size();
  R.Sample(Fmt("%zu kernels (op x type x target x tag), each for every n in 0..3*lanes+3 at both guard pages", fs.size()));
  return R.Write();
}
