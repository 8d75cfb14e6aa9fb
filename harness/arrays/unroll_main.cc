// P26: kernels run through the unroller against scalar loops.
#include "../common/cpu.h"
#include "../common/report.h"
#include "../common/watch.h"
#include "arr.h"
#include "buf.h"
#include "elem.h"
#include <memory>
namespace vt {
std::vector<ArrFn>& ArrFns() { static auto* v = new std::vector<ArrFn>; return *v; }
struct Bufs { Buf b[3]; Bufs() : b{Buf(6), Buf(6), Buf(6)} {} };
static void One(const ArrFn& f, size_t n, bool end, size_t off, Rng& g, Bufs& B, std::unordered_set<uint64_t>& seen) {
  Report& R = Rep(); const std::string op = f.op; const bool two = f.ty2 >= 0; const bool scalar_out = op.compare(0, 3, "Map") != 0;
  const bool uns = f.ty <= U64 || (two && f.ty2 <= U64) || f.ty3 <= U64;
  std::vector<int64_t> a(n), b(n); const int64_t span = g.below(2) ? 7 : 100;
  auto val = [&](int ty) -> int64_t { int64_t v = int64_t(g.below(uint64_t(span) + 1)); if (!uns && ty != -1 && g.below(2)) v = -v; return v; };
  for (size_t i = 0; i < n; ++i) { a[i] = val(f.ty); b[i] = val(f.ty2); }
  int64_t key = val(f.ty);
  if (op == "Find") { key = int64_t(g.below(100)); for (auto& v : a) if (v == key) v = key + 1 + (key + 1 == 0); const uint64_t k = g.below(5); if (n && k) { a[g.below(n)] = key; if (k == 2) a[g.below(n)] = key; if (k == 3) { for (auto& v : a) if (v == key) ++v; a[n - 1] = key; } } }
  if (op == "Mismatch2D") { b = a; const uint64_t k = g.below(4); if (n && k) { b[g.below(n)] ^= 1; if (k == 2) b[g.below(n)] ^= 1; if (k == 3) { b = a; b[n - 1] ^= 1; } } }
  std::vector<int64_t> w; size_t outn = scalar_out ? 1 : n;
  if (op == "Map") for (size_t i = 0; i < n; ++i) w.push_back(a[i] + int64_t(i));
  if (op == "Map2D") for (size_t i = 0; i < n; ++i) w.push_back(a[i] - b[i] + int64_t(i));
  if (op == "Sum") { int64_t s = 0; for (int64_t v : a) s += v; w.push_back(s); }
  if (op == "Dot2D") { int64_t s = 0; for (size_t i = 0; i < n; ++i) s += a[i] * b[i]; w.push_back(s); }
  if (op == "Min") { int64_t s = 1000; for (int64_t v : a) s = v < s ? v : s; w.push_back(s); }
  if (op == "Find") { int64_t s = -1; for (size_t i = n; i-- > 0;) if (a[i] == key) s = int64_t(i); w.push_back(s); }
  if (op == "Mismatch2D") { int64_t s = -1; for (size_t i = n; i-- > 0;) if (a[i] != b[i]) s = int64_t(i); w.push_back(s); }
  const size_t S0 = TySize(f.ty), S1 = two ? TySize(f.ty2) : 0, SO = TySize(f.ty3);
  uint8_t* p0 = B.b[0].Place(outn * SO, end, off * SO); uint8_t* p1 = B.b[1].Place(n * S0, end, (off ? (off * 3 + 1) % 7 : 0) * S0); uint8_t* p2 = B.b[2].Place(two ? n * S1 : 0, end, two ? off * S1 : 0);
  for (size_t i = 0; i < n; ++i) { PutEl(f.ty, p1, i, a[i]); if (two) PutEl(f.ty2, p2, i, b[i]); }
  std::vector<uint8_t> c1(p1, p1 + n * S0), c2(p2, p2 + (two ? n * S1 : 0)), wb(outn * SO); for (size_t i = 0; i < outn; ++i) PutEl(f.ty3, wb.data(), i, w[i]);
  Call c; c.n = n; c.p[0] = p0; c.p[1] = p1; c.p[2] = p2; c.bits[0] = uint64_t(key);
  const std::string k = op + "/" + TyName(f.ty) + (two ? std::string("-") + TyName(f.ty2) : "") + "-" + TyName(f.ty3) + "/" + f.target;
  const std::string d = Fmt("n=%zu lanes %zu %s offset %zu", n, f.lanes, end ? "ends at the guard page" : "starts at the guard page", off);
  const int sig = Guarded([&] { f.fn(c); });
  if (!R.Check(sig == 0, k + "/fault", "%s: signal %d at byte %td relative to out, %td in0, %td in1", d.c_str(), sig, static_cast<uint8_t*>(tl_addr) - p0, static_cast<uint8_t*>(tl_addr) - p1, static_cast<uint8_t*>(tl_addr) - p2)) return;
  if (!wb.empty() && memcmp(p0, wb.data(), wb.size()) != 0) { size_t i = 0; while (memcmp(p0 + i * SO, &wb[i * SO], SO) == 0) ++i; uint64_t got = 0; memcpy(&got, p0 + i * SO, SO); R.Viol(k + "/content", d + Fmt(": element %zu is 0x%llx want %lld", i, (unsigned long long)got, (long long)w[i])); }
  R.Check(B.b[0].Clean(), k + "/writes-outside", "%s", d.c_str());
  R.Check(B.b[1].Clean() && B.b[2].Clean() && (c1.empty() || !memcmp(p1, c1.data(), c1.size())) && (c2.empty() || !memcmp(p2, c2.data(), c2.size())), k + "/input-modified", "%s", d.c_str());
  seen.insert(HashBytes(HashBytes(n * 131 + f.ty3, k.data(), k.size()), wb.data(), wb.size()));
}
static void RunFn(const ArrFn& f, uint64_t seed) {
  Report& R = Rep(); Rng g(HashBytes(seed, f.op, strlen(f.op)) + f.ty * 977 + f.ty2 * 31 + f.ty3 * 7 + f.lanes); Bufs B; std::unordered_set<uint64_t> seen; uint64_t ev = 0;
  Watched w("%s|%s %s", f.op, f.target, TyName(f.ty)); const size_t L = f.lanes, top = 9 * L + 3; const std::string op = f.op;
  // Element 0 does not exist for n = 0: only kernels whose result is defined then.
  const size_t first = op == "Find" || op == "Mismatch2D" || op == "Min" ? 1 : 0;
  const int reps = R.thorough ? 10 : Quick(3);
  auto go = [&](size_t n, bool end, size_t off) { One(f, n, end, off, g, B, seen); ++ev; };
  for (int r = 0; r < reps; ++r) {
    for (size_t n = first; n <= top; ++n) for (int end = 0; end < 2; ++end) { go(n, end, 0); if (n < 40 || n % 5 == 0) go(n, end, 1 + g.below(9)); }
    for (int k = 0; k < 8; ++k) go(1 + g.below(1900), g.below(2), g.below(4) ? 0 : 1 + g.below(9));
  }
  R.SeeAll(seen); R.Eval(ev);
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); InstallFaultHandler(); StartWatchdog(60);
  std::vector<const ArrFn*> fs; for (const ArrFn& f : ArrFns()) { if (!CpuSupports(f.target)) { R.skipped.insert(f.target); continue; } R.targets.insert(f.target); fs.push_back(&f); }
  std::atomic<size_t> next{0}; std::vector<std::thread> ts;
  for (int t = 0; t < R.threads; ++t) ts.emplace_back([&] { for (size_t i; (i = next++) < fs.size();) RunFn(*fs[i], R.seed); });
  for (auto& t : ts) t.join();
  R.counters["kernels"] = fs.size(); R.Sample(Fmt("%zu kernels (operation x types x target), each for every n in 0..9*lanes+3 at both guard pages", fs.size()));
  return R.Write();
}
