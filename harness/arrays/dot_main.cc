// P16: dot products and matrix-vector products against wide reference sums.
#include "hwy/contrib/thread_pool/thread_pool.h"
#include "../common/cpu.h"
#include "../common/report.h"
#include "../common/watch.h"
#include "arr.h"
#include "buf.h"
#include "elem.h"
#include "fp.h"
#include <memory>
namespace vt {
typedef __float128 Q;
std::vector<ArrFn>& ArrFns() { static auto* v = new std::vector<ArrFn>; return *v; }
static double Get(int ty, const void* base, size_t i) {
  const uint8_t* p = static_cast<const uint8_t*>(base) + i * TySize(ty); uint16_t h; float f; double d; int16_t s; int32_t w;
  switch (ty) { case F32: memcpy(&f, p, 4); return f; case F64: memcpy(&d, p, 8); return d; case I16: memcpy(&s, p, 2); return s; case I32: memcpy(&w, p, 4); return w; case F16: memcpy(&h, p, 2); return F16ToD(h); default: memcpy(&h, p, 2); return BF16ToD(h); }
}
static void Put(int ty, void* base, size_t i, double v) {
  uint8_t* p = static_cast<uint8_t*>(base) + i * TySize(ty); uint16_t h; float f; int16_t s;
  switch (ty) { case F32: f = float(v); memcpy(p, &f, 4); break; case F64: memcpy(p, &v, 8); break; case I16: s = int16_t(v); memcpy(p, &s, 2); break; case F16: h = DToF16(v); memcpy(p, &h, 2); break; default: h = DToBF16(v); memcpy(p, &h, 2); }
}
static double Eps(int ty) { return ty == F64 ? 0x1p-53 : ty == F16 ? 0x1p-11 : 0x1p-24; }
static double Tiny(int ty) { return ty == F64 ? 0x1p-1070 : ty == F16 ? 0x1p-23 : 0x1p-126; }
enum Style { kExact, kRound, kNaN, kInf, kCancel, kStyles };
static double Val(int ty, int style, size_t n, Rng& g) {
  if (ty == I16) { if (style == kInf && n <= 1) return -32768; const double lim = n <= 1 ? 32767 : floor(sqrt(2147483647.0 / double(n))); const double m = lim < 32767 ? lim : 32767; double v = floor(g.unit() * (m + 1)); if (g.below(6) == 0) v = m; return g.below(2) ? -v : v; }
  if (style == kExact || style == kInf || style == kNaN) {  // all partial sums are exact
    const double total = ty == F16 ? 2048 : 16777216; double m = floor(sqrt(total / double(n + 2))); if (m > 127) m = 127; if (m < 1) m = 1;
    double v = floor(g.unit() * (m + 1)); if (ty == F16 && n > 1500 && g.below(2)) v = 0; return g.below(2) ? -v : v;
  }
  if (style == kCancel) return (g.below(2) ? 1 : -1) * ldexp(1 + g.unit(), int(g.below(3)));
  const int span = ty == F16 ? 6 : 40; return (g.below(2) ? 1 : -1) * ldexp(1 + g.unit(), int(g.below(uint64_t(span))) - span / 2 - (ty == F16 ? 1 : 0));
}
// |terms|: number of products and additions that may round.
static bool Ok(int ty, double got, Q want, Q abs, size_t terms, bool exact, double* bound) {
  if (exact) { *bound = 0; return Q(got) == want; }
  const Q b = Q(double(terms + 4) * Eps(ty)) * abs * Q(1.01) + Q(double(terms + 4) * Tiny(ty)); *bound = double(b);
  const Q e = Q(got) - want; return !isnan(got) && (e < 0 ? -e : e) <= b;
}
static const char* StyleName(int s) { static const char* n[] = {"exact", "rounding", "nan", "inf", "cancel"}; return n[s]; }
static void OneDot(const ArrFn& f, size_t n, bool end, size_t off, Rng& g, Buf* B, std::unordered_set<uint64_t>& seen) {
  Report& R = Rep(); const size_t L = f.lanes; int style = int(g.below(kStyles)); if (n == 0) style = kExact; if (f.ty == F16 && n > 1500 && style == kExact) style = kRound;
  const bool padded = (f.arg & 4) != 0; const size_t pn = padded ? (n + L - 1) / L * L : n;
  const size_t S0 = TySize(f.ty), S1 = TySize(f.ty2);
  uint8_t* a = B[1].Place(pn * S0, end, off * S0); uint8_t* b = B[2].Place(pn * S1, end, (off ? (off * 5 + 2) % 11 : 0) * S1);
  for (size_t i = 0; i < pn; ++i) { Put(f.ty, a, i, i < n ? Val(f.ty, style, n, g) : f.ty == I16 ? 12345 : NAN); Put(f.ty2, b, i, i < n ? Val(f.ty2, style, n, g) : f.ty == I16 ? 17 : INFINITY); }
  const size_t k = n ? (g.below(3) == 0 ? n - 1 : g.below(3) == 0 ? 0 : g.below(n)) : 0; double special = 0;
  if (style == kNaN && f.ty != I16) { if (g.below(2)) Put(f.ty, a, k, NAN); else Put(f.ty2, b, k, NAN); }
  if (style == kInf && f.ty != I16) { special = g.below(2) ? INFINITY : -INFINITY; if (g.below(2)) { Put(f.ty, a, k, special); Put(f.ty2, b, k, 2); } else { Put(f.ty, a, k, -1); Put(f.ty2, b, k, special); special = -special; } }
  Q want = 0, abs = 0; uint64_t h = Mix(n, uint64_t(style)); 
  for (size_t i = 0; i < n; ++i) { const double x = Get(f.ty, a, i), y = Get(f.ty2, b, i); if (isfinite(x) && isfinite(y)) { const Q p = Q(x) * Q(y); want += p; abs += p < 0 ? -p : p; } }
  std::vector<uint8_t> ca(a, a + pn * S0), cb(b, b + pn * S1); h = HashBytes(h, a, n * S0);
  Call c; c.n = n; c.p[1] = a; c.p[2] = b;
  const std::string key = Fmt("Dot/%s-%s/%s%s/%d", TyName(f.ty), TyName(f.ty2), f.target, f.capped ? "/capped" : "", f.arg);
  const std::string d = Fmt("n=%zu lanes %zu %s offset %zu style %s", n, L, end ? "ends at the guard page" : "starts at the guard page", off, StyleName(style));
  const int sig = Guarded([&] { f.fn(c); });
  if (!R.Check(sig == 0, key + "/fault", "%s: signal %d at byte %td relative to a, %td b", d.c_str(), sig, static_cast<uint8_t*>(tl_addr) - a, static_cast<uint8_t*>(tl_addr) - b)) return;
  const double got = Get(f.ty3, &c.ret, 0); double bound = 0;
  if (f.ty == I16) R.Check(Q(got) == want, key + "/result", "%s: got %.0f want %.0f", d.c_str(), got, double(want));
  else if (style == kNaN) R.Check(isnan(got), key + "/nan", "%s: got %g although element %zu is NaN", d.c_str(), got, k);
  else if (style == kInf) R.Check(got == special, key + "/inf", "%s: got %g want %g from element %zu", d.c_str(), got, special, k);
  else { const bool ok = Ok(f.ty3, got, want, abs, n, style == kExact, &bound); R.Check(ok, key + "/result", "%s: got %.17g want %.17g, allowed difference %g", d.c_str(), got, double(want), bound); }
  R.Check(B[1].Clean() && B[2].Clean() && (pn == 0 || (!memcmp(a, ca.data(), ca.size()) && !memcmp(b, cb.data(), cb.size()))), key + "/writes", "%s: memory was modified", d.c_str());
  seen.insert(Mix(HashBytes(h, key.data(), key.size()), 1));
}
static void OneMV(const ArrFn& f, bool end, Rng& g, Buf* B, hwy::ThreadPool& pool, std::unordered_set<uint64_t>& seen) {
  Report& R = Rep(); const size_t rows = f.lanes, cols = size_t(f.arg); const bool add = !strcmp(f.op, "MatVecAdd");
  const int style = int(g.below(kStyles)); const size_t SM = TySize(f.ty), SV = TySize(f.ty2), SO = TySize(f.ty3), off = g.below(3) ? 0 : 1 + g.below(9);
  const size_t ob = rows * SO, pad = end ? (64 - ob % 64) % 64 : 0;
  uint8_t* o = B[0].Place(ob, end, 0, pad); uint8_t* m = B[1].Place(rows * cols * SM, end, off * SM); uint8_t* v = B[2].Place(cols * SV, end, off * SV); uint8_t* ad = B[3].Place(add ? rows * SV : 0, end, add ? off * SV : 0);
  for (size_t i = 0; i < rows * cols; ++i) Put(f.ty, m, i, Val(f.ty, style, cols, g));
  for (size_t i = 0; i < cols; ++i) Put(f.ty2, v, i, Val(f.ty2, style, cols, g));
  if (add) for (size_t i = 0; i < rows; ++i) Put(f.ty2, ad, i, Val(f.ty2, style, cols, g));
  const size_t sr = g.below(rows), sc = g.below(2) ? cols - 1 : g.below(cols);
  if (style == kNaN || style == kInf) { Put(f.ty2, v, sc, 1); Put(f.ty, m, sr * cols + sc, style == kNaN ? NAN : INFINITY); }
  Call c; c.p[0] = o; c.p[1] = m; c.p[2] = v; c.p[3] = ad; c.user = &pool;
  std::vector<uint8_t> cm(m, m + rows * cols * SM), cv(v, v + cols * SV), ca(ad, ad + (add ? rows * SV : 0));
  const std::string key = Fmt("%s/%s-%s/%s/%zux%zu", f.op, TyName(f.ty), TyName(f.ty2), f.target, rows, cols); const std::string d = Fmt("%s style %s offset %zu workers %zu", end ? "end" : "begin", StyleName(style), off, pool.NumWorkers());
  const int sig = Guarded([&] { f.fn(c); });
  if (sig != 0) { R.Viol(key + "/fault", d + Fmt(": signal %d", sig)); R.Finish(); }  // the pool is unusable now
  for (size_t r = 0; r < rows; ++r) {
    Q want = 0, abs = 0; for (size_t i = 0; i < cols; ++i) { const double x = Get(f.ty, m, r * cols + i), y = Get(f.ty2, v, i); if (isfinite(x)) { const Q p = Q(x) * Q(y); want += p; abs += p < 0 ? -p : p; } }
    if (add) { const Q p = Q(Get(f.ty2, ad, r)); want += p; abs += p < 0 ? -p : p; }
    const double got = Get(f.ty3, o, r); double bound = 0;
    if (style == kNaN && r == sr) R.Check(isnan(got), key + "/nan", "%s: row %zu is %g", d.c_str(), r, got);
    else if (style == kInf && r == sr) R.Check(got == INFINITY, key + "/inf", "%s: row %zu is %g", d.c_str(), r, got);
    else { const bool ok = Ok(f.ty3, got, want, abs, cols + 1, style == kExact || style == kNaN || style == kInf, &bound); R.Check(ok, key + "/result", "%s: row %zu is %.17g want %.17g, allowed difference %g", d.c_str(), r, got, double(want), bound); }
  }
  R.Check(B[0].Clean(), key + "/writes-outside", "%s", d.c_str());
  R.Check(B[1].Clean() && B[2].Clean() && B[3].Clean() && !memcmp(m, cm.data(), cm.size()) && !memcmp(v, cv.data(), cv.size()) && (!add || !memcmp(ad, ca.data(), ca.size())), key + "/input-modified", "%s", d.c_str());
  seen.insert(HashBytes(HashBytes(rows, key.data(), key.size()), m, cm.size()));
}
static void RunFn(const ArrFn& f, uint64_t seed, Buf* B, hwy::ThreadPool** pools) {
  Report& R = Rep(); Rng g(HashBytes(seed, f.op, strlen(f.op)) + f.ty * 977 + f.ty2 * 31 + f.arg * 7 + f.lanes); std::unordered_set<uint64_t> seen; uint64_t ev = 0;
  Watched w("%s|%s %s %d", f.op, f.target, TyName(f.ty), f.arg);
  if (!strcmp(f.op, "Dot")) {
    const size_t L = f.lanes, top = 5 * L + 3; const int reps = R.thorough ? 20 : Quick(4);
    auto go = [&](size_t n) { if ((f.arg & 1) && n < L) return; if ((f.arg & 2) && n % L) return; for (int end = 0; end < 2; ++end) { OneDot(f, n, end, 0, g, B, seen); OneDot(f, n, end, 1 + g.below(9), g, B, seen); ev += 2; } };
    for (int r = 0; r < reps; ++r) { for (size_t n = 0; n <= top; ++n) go(n); for (int k = 0; k < 8; ++k) go((f.arg & 2) ? g.below(1800 / L) * L : g.below(1900)); }
    if (f.arg & 2) for (int k = 0; k < 20; ++k) go(g.below(1 + 1800 / L) * L);
  } else {
    const int reps = R.thorough ? 60 : Quick(12);
    for (int r = 0; r < reps; ++r) for (int end = 0; end < 2; ++end) { OneMV(f, end, g, B, *pools[g.below(3)], seen); ++ev; }
  }
  R.SeeAll(seen); R.Eval(ev);
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); InstallFaultHandler(); StartWatchdog(60);
  std::vector<const ArrFn*> fs; for (const ArrFn& f : ArrFns()) { if (!CpuSupports(f.target)) { R.skipped.insert(f.target); continue; } R.targets.insert(f.target); fs.push_back(&f); }
  std::atomic<size_t> next{0}; std::vector<std::thread> ts;
  for (int t = 0; t < R.threads; ++t) ts.emplace_back([&] {
    Buf B[4] = {Buf(8), Buf(80), Buf(8), Buf(8)};
    hwy::ThreadPool p0(0), p1(2), p2(4); hwy::ThreadPool* pools[3] = {&p0, &p1, &p2};
    for (size_t i; (i = next++) < fs.size();) RunFn(*fs[i], R.seed, B, pools);
  });
  for (auto& t : ts) t.join();
  R.counters["kernels"] = fs.size(); R.Sample(Fmt("%zu kernels (operation x element types x assumption flags or shape x target)", fs.size()));
  return R.Write();
}
