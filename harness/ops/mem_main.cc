// P05 driver: every memory operation runs between guard pages and canaries; a
// byte-level model predicts which bytes may be read/written and the lanes loaded.
#include <algorithm>
#include <thread>
#include <unistd.h>
#include "../common/cpu.h"
#include "../common/report.h"
#include "../common/guard.h"
#include "core.h"
#include "mem.h"
namespace vt {
std::vector<VecCase>& VecCases() { static auto* v = new std::vector<VecCase>; return *v; }
std::map<std::string, int>& MemMightFault() { static auto* m = new std::map<std::string, int>; return *m; }

struct In {
  alignas(64) uint8_t v[4][kInBytes]; alignas(64) uint8_t mask[kInBytes]; alignas(64) uint8_t idx[kInBytes]; uint8_t bits[8]; size_t n;
  bool m(size_t i, size_t S) const { return mask[i * S] & 1; }
};
// Plan of one call. Offsets are bytes relative to src/dst pointers.
struct Plan {
  ptrdiff_t sb = 0, se = 0, db = 0, de = 0;  // accessible [sb,se) of src, [db,de) of dst
  bool align = false;                        // vector-size alignment required
  struct W { size_t ofs; uint8_t val; };
  std::vector<W> writes;                     // required
  std::vector<std::pair<size_t, size_t>> any;  // may be modified
  std::vector<std::vector<uint8_t>> out;     // expected output chunks
  std::vector<size_t> multi;                 // scatter duplicates: offsets (elements) with several candidates
  // out element: from src at offset, or literal
  struct O { int kind; ptrdiff_t ofs; uint8_t val; };  // 0 = src byte, 1 = literal, 2 = dst byte
  std::vector<O> o;
  void src(ptrdiff_t ofs, size_t n) { for (size_t i = 0; i < n; ++i) o.push_back({0, ofs + ptrdiff_t(i), 0}); }
  void lit(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) o.push_back({1, 0, p[i]}); }
  void zero(size_t n) { for (size_t i = 0; i < n; ++i) o.push_back({1, 0, 0}); }
  void u64(uint64_t x) { lit(reinterpret_cast<uint8_t*>(&x), 8); }
  void wr(size_t ofs, const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) writes.push_back({ofs + i, p[i]}); }
};
static uint64_t Idx(const In& I, size_t i, size_t S) { uint64_t u = 0; memcpy(&u, I.idx + i * S, S); return u; }

// need_num: 0 none, 1 any, 2 <= N
struct Spec { const char* op; int num; int idx; void (*fn)(size_t N, size_t S, const In& I, bool fault, Plan& p); };
#define SPEC(NAME, NUM, IDX, ...) {#NAME, NUM, IDX, [](size_t N, size_t S, const In& I, bool fault, Plan& p) { (void)N; (void)S; (void)I; (void)fault; const size_t B = N * S; (void)B; __VA_ARGS__ }}
static void Span(const In& I, size_t N, size_t S, bool fault, ptrdiff_t& b, ptrdiff_t& e) {
  b = 0; e = ptrdiff_t(N * S);
  if (fault) return;
  size_t f = N, l = 0; for (size_t i = 0; i < N; ++i) if (I.m(i, S)) { f = std::min(f, i); l = i + 1; }
  if (f == N) { b = e = 0; return; }
  b = ptrdiff_t(f * S); e = ptrdiff_t(l * S);
}
static void Gath(const In& I, size_t N, size_t S, bool bytes, size_t n, bool masked, Plan& p, const uint8_t* no) {
  p.sb = 0; p.se = 0;
  for (size_t i = 0; i < N; ++i) {
    const bool act = masked ? I.m(i, S) : i < n;
    if (!act) { if (no) p.lit(no + i * S, S); else p.zero(S); continue; }
    const ptrdiff_t o = ptrdiff_t(Idx(I, i, S) * (bytes ? 1 : S));
    p.se = std::max(p.se, o + ptrdiff_t(S)); p.src(o, S);
  }
}
static void Scat(const In& I, size_t N, size_t S, bool bytes, size_t n, bool masked, Plan& p) {
  p.db = 0; p.de = 0;
  for (size_t i = 0; i < N; ++i) {
    if (!(masked ? I.m(i, S) : i < n)) continue;
    const size_t o = size_t(Idx(I, i, S) * (bytes ? 1 : S));
    p.de = std::max(p.de, ptrdiff_t(o + S)); p.wr(o, I.v[0] + i * S, S); p.multi.push_back(o);
  }
}
static void Ileave(const In& I, size_t N, size_t S, size_t K, Plan& p) {
  p.de = ptrdiff_t(K * N * S);
  for (size_t i = 0; i < N; ++i) for (size_t k = 0; k < K; ++k) p.wr((i * K + k) * S, I.v[k] + i * S, S);
}
static void Deleave(size_t N, size_t S, size_t K, Plan& p) {
  p.se = ptrdiff_t(K * N * S);
  for (size_t k = 0; k < K; ++k) for (size_t i = 0; i < N; ++i) p.src(ptrdiff_t((i * K + k) * S), S);
}
static void Comp(const In& I, size_t N, size_t S, bool bits, bool blended, Plan& p) {
  size_t n = 0; for (size_t i = 0; i < N; ++i) if (bits ? (I.bits[i / 8] >> (i % 8)) & 1 : I.m(i, S)) p.wr(S * n++, I.v[0] + i * S, S);
  p.de = ptrdiff_t(N * S); if (!blended) p.any.push_back({n * S, N * S}); p.u64(n);
}
static void Trunc(const In& I, size_t N, size_t S, size_t B, Plan& p) { p.de = ptrdiff_t(N * B); for (size_t i = 0; i < N; ++i) p.wr(i * B, I.v[0] + i * S, B); }
static const Spec kSpecs[] = {
    SPEC(Load, 0, 0, p.align = true; p.se = B; p.src(0, B);),
    SPEC(LoadU, 0, 0, p.se = B; p.src(0, B);),
    SPEC(LoadDup128, 0, 0, const size_t L = std::min<size_t>(16, B); p.se = L; for (size_t i = 0; i < B; i += L) p.src(0, L);),
    SPEC(InsertIntoUpper, 0, 0, p.de = B / 2; p.lit(I.v[0], B / 2); for (size_t i = 0; i < B / 2; ++i) p.o.push_back({2, ptrdiff_t(i), 0});),
    SPEC(MaskedLoad, 0, 0, Span(I, N, S, fault, p.sb, p.se); for (size_t i = 0; i < N; ++i) if (I.m(i, S)) p.src(i * S, S); else p.zero(S);),
    SPEC(MaskedLoadOr, 0, 0, Span(I, N, S, fault, p.sb, p.se); for (size_t i = 0; i < N; ++i) if (I.m(i, S)) p.src(i * S, S); else p.lit(I.v[0] + i * S, S);),
    // The caller promises [p, p + n) is accessible, so for n > Lanes more than
    // Lanes(d) elements may be read, but never written or returned.
    SPEC(LoadN, 1, 0, const size_t n = std::min(N, I.n); p.se = std::min(I.n, kPage / S) * S; p.src(0, n * S); p.zero(B - n * S);),
    SPEC(LoadNConst, 1, 0, const size_t n = std::min(N, I.n); p.se = std::min(I.n, kPage / S) * S; p.src(0, n * S); p.zero(B - n * S);),
    SPEC(LoadNOr, 1, 0, const size_t n = std::min(N, I.n); p.se = std::min(I.n, kPage / S) * S; p.src(0, n * S); p.lit(I.v[0] + n * S, B - n * S);),
    SPEC(LoadNOrConst, 1, 0, const size_t n = std::min(N, I.n); p.se = std::min(I.n, kPage / S) * S; p.src(0, n * S); p.lit(I.v[0] + n * S, B - n * S);),
    SPEC(Store, 0, 0, p.align = true; p.de = B; p.wr(0, I.v[0], B);),
    SPEC(StoreU, 0, 0, p.de = B; p.wr(0, I.v[0], B);),
    // Stream may write a multiple of HWY_STREAM_MULTIPLE = 16 bytes.
    SPEC(Stream, 0, 0, p.align = true; p.de = std::max<size_t>(16, B); p.wr(0, I.v[0], B); p.any.push_back({B, size_t(p.de)});),
    SPEC(BlendedStore, 0, 0, Span(I, N, S, fault, p.db, p.de); for (size_t i = 0; i < N; ++i) if (I.m(i, S)) p.wr(i * S, I.v[0] + i * S, S);),
    SPEC(StoreN, 1, 0, const size_t n = std::min(N, I.n); p.de = n * S; p.wr(0, I.v[0], n * S);),
    SPEC(StoreNConst, 1, 0, const size_t n = std::min(N, I.n); p.de = n * S; p.wr(0, I.v[0], n * S);),
    SPEC(SafeFillN, 2, 0, p.de = I.n * S; for (size_t i = 0; i < I.n; ++i) p.wr(i * S, I.v[0], S);),
    SPEC(SafeCopyN, 2, 0, p.de = p.se = I.n * S;),
    SPEC(TruncateStore1, 0, 0, Trunc(I, N, S, 1, p);), SPEC(TruncateStore2, 0, 0, Trunc(I, N, S, 2, p);), SPEC(TruncateStore4, 0, 0, Trunc(I, N, S, 4, p);),
    SPEC(LoadInterleaved2, 0, 0, Deleave(N, S, 2, p);), SPEC(LoadInterleaved3, 0, 0, Deleave(N, S, 3, p);), SPEC(LoadInterleaved4, 0, 0, Deleave(N, S, 4, p);),
    SPEC(StoreInterleaved2, 0, 0, Ileave(I, N, S, 2, p);), SPEC(StoreInterleaved3, 0, 0, Ileave(I, N, S, 3, p);), SPEC(StoreInterleaved4, 0, 0, Ileave(I, N, S, 4, p);),
    SPEC(GatherOffset, 0, 2, Gath(I, N, S, true, N, false, p, nullptr);), SPEC(GatherIndex, 0, 1, Gath(I, N, S, false, N, false, p, nullptr);),
    SPEC(GatherIndexN, 1, 3, Gath(I, N, S, false, I.n, false, p, nullptr);), SPEC(GatherIndexNOr, 1, 3, Gath(I, N, S, false, I.n, false, p, I.v[0]);),
    SPEC(MaskedGatherIndex, 0, 3, Gath(I, N, S, false, N, true, p, nullptr);), SPEC(MaskedGatherIndexOr, 0, 3, Gath(I, N, S, false, N, true, p, I.v[0]);),
    SPEC(ScatterOffset, 0, 2, Scat(I, N, S, true, N, false, p);), SPEC(ScatterIndex, 0, 1, Scat(I, N, S, false, N, false, p);),
    SPEC(ScatterIndexN, 1, 3, Scat(I, N, S, false, I.n, false, p);), SPEC(MaskedScatterIndex, 0, 3, Scat(I, N, S, false, N, true, p);),
    SPEC(CompressStore, 0, 0, Comp(I, N, S, false, false, p);), SPEC(CompressBlendedStore, 0, 0, Comp(I, N, S, false, true, p);), SPEC(CompressBitsStore, 0, 0, Comp(I, N, S, true, false, p);),
    SPEC(LoadExpand, 0, 0, p.se = B; size_t n = 0; for (size_t i = 0; i < N; ++i) if (I.m(i, S)) p.src(S * n++, S); else p.zero(S);),
    SPEC(LoadMaskBits, 0, 0, p.se = 8; p.o.push_back({3, 0, 0});),
    // Bytes after the last are unspecified but at least 8 must be writable.
    SPEC(StoreMaskBits, 0, 0, p.de = 8; const size_t nb = (N + 7) / 8; uint8_t b[8] = {0}; for (size_t i = 0; i < N; ++i) b[i / 8] |= uint8_t(I.m(i, S) << (i % 8)); p.wr(0, b, nb); p.any.push_back({nb, 8}); p.u64(nb);),
    SPEC(CacheControl, 2, 0, p.de = B;),
};
struct Worker {
  Arena src{2}, dst{2};
  std::vector<uint8_t> model;
  Rng g{0};
  alignas(64) uint8_t out[kOutBytes];
  std::unordered_set<uint64_t> seen;
  Worker() : model(2 * kPage) {}
  uint8_t* Place(const Arena& a, int mode, ptrdiff_t b, ptrdiff_t e, size_t S, size_t al) {
    uint8_t* p;
    if (mode == 0) p = a.end() - e;          // region ends at the guard page
    else if (mode == 1) p = a.begin() - b;   // region starts at the guard page
    else p = a.begin() + 64 + S * g.below((kPage - 64) / S) - b;
    if (al > 1 && mode == 2) p = a.begin() + al * g.below(kPage / al);
    return p;
  }
  void Run(const VecCase& vc, const Spec& sp, uint64_t iters, bool fault) {
    Report& R = Rep();
    const size_t N = vc.N, S = TySize(vc.ty), B = N * S;
    g = Rng(R.seed * 1000003 + HashBytes(vc.ty * 131 + N, vc.op, strlen(vc.op)));
    static thread_local In I;
    for (size_t i = 0; i < 2 * kPage; ++i) { src.begin()[i] = uint8_t(g()); model[i] = uint8_t(g()); }
    memcpy(dst.begin(), model.data(), model.size());
    const std::string key = std::string(vc.op) + "/" + TyName(vc.ty) + "/" + std::to_string(N) + "/" + vc.target;
    for (uint64_t it = 0; it < iters; ++it) {
      for (auto& v : I.v) for (size_t i = 0; i < B; i += 8) { const uint64_t x = g(); memcpy(v + i, &x, 8); }
      // bits + mask
      const uint64_t ms = g.below(8);
      for (size_t i = 0; i < N; ++i) {
        bool m = g.below(2);
        if (N <= 8 && it < (2ull << N)) m = (it >> i) & 1;
        else if (ms == 0) m = i < it % (N + 1); else if (ms == 1) m = i >= it % (N + 1); else if (ms == 2) m = i == it % N; else if (ms == 3) m = true; else if (ms == 4) m = false;
        memset(I.mask + i * S, 0, S); I.mask[i * S] = m;
      }
      const uint64_t rb = g(); memcpy(I.bits, &rb, 8);
      I.n = it % (N + 1);
      if (sp.num == 1 && g.below(4) == 0) { static const size_t big[] = {1, 2, 7, 1000, size_t(-1), size_t(1) << 32}; const size_t k = g.below(6); I.n = k < 3 ? N + big[k] : big[k]; }
      const uint64_t range = 1 + g.below(3) * N + g.below(4);  // indices [0, range)
      std::vector<uint64_t> perm(std::max<uint64_t>(range, N));
      for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
      for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[g.below(i)]);
      const bool uniq = g.below(2);
      for (size_t i = 0; i < N; ++i) {
        uint64_t x = uniq ? perm[i] : g.below(range);
        if (sp.idx == 2) x *= S;
        // Inactive lanes get wild (non-negative) indices.
        if (sp.idx == 3 && g.below(2)) { const bool act = strncmp(vc.op, "Masked", 6) == 0 ? I.m(i, S) : i < I.n; if (!act) x = g() >> (S == 4 ? 33 : 24); }
        memcpy(I.idx + i * S, &x, S);
      }
      Plan p; sp.fn(N, S, I, fault, p);
      const int ms_ = int(it % 3), md_ = int((it / 3) % 3);
      const size_t al = p.align ? std::max<size_t>(B, strcmp(vc.op, "Stream") == 0 ? 16 : 1) : 1;
      uint8_t* s = Place(src, ms_, p.sb, p.se, S, al);
      uint8_t* d = Place(dst, md_, p.db, p.de, S, al);
      const size_t dofs = size_t(d - dst.begin());
      const uint8_t* in[10] = {I.v[0], I.v[1], I.v[2], I.v[3], I.mask, s, d, reinterpret_cast<const uint8_t*>(&I.n), I.idx, I.bits};
      size_t got = 0;
      const int sig = Guarded([&] { got = vc.fn(in, out); });
      auto desc = [&] { std::string t = Fmt("n=%zu placement src=%d dst=%d mask=", I.n, ms_, md_); for (size_t i = 0; i < N; ++i) t += I.m(i, S) ? '1' : '0'; t += " idx="; for (size_t i = 0; i < std::min<size_t>(N, 8); ++i) t += Fmt("%llu,", (unsigned long long)Idx(I, i, S)); return t; };
      R.evaluations.fetch_add(1, std::memory_order_relaxed);
      if (sig) { const char* w = tl_addr >= src.map && tl_addr < src.end() + kPage ? "source" : tl_addr >= dst.map && tl_addr < dst.end() + kPage ? "destination" : "unrelated";
        R.Viol(key, Fmt("signal %d: access outside the documented bytes of the %s (%+td from p) ", sig, w, static_cast<uint8_t*>(tl_addr) - (w[0] == 's' ? s : d)) + desc()); return; }
      // expected memory
      if (!strcmp(vc.op, "SafeCopyN")) p.wr(0, s, I.n * S);
      for (auto& a : p.any) for (size_t i = a.first; i < a.second; ++i) model[dofs + i] = dst.begin()[dofs + i];
      for (auto& w : p.writes) model[dofs + w.ofs] = w.val;
      // duplicates: any candidate is acceptable
      if (!uniq && p.multi.size() > 1) for (size_t a = 0; a < p.multi.size(); ++a) for (size_t j = 0; j < S; ++j) if (p.writes[a * S].ofs == p.multi[a] && memcmp(&d[p.multi[a]], [&] { static thread_local uint8_t t[8]; for (size_t q = 0; q < S; ++q) t[q] = p.writes[a * S + q].val; return t; }(), S) == 0) model[dofs + p.multi[a] + j] = d[p.multi[a] + j];
      if (memcmp(model.data(), dst.begin(), model.size())) {
        size_t k = 0; while (model[k] == dst.begin()[k]) ++k;
        R.Viol(key, Fmt("memory at p%+td: got %02x expected %02x ", ptrdiff_t(k) - ptrdiff_t(dofs), dst.begin()[k], model[k]) + desc()); return;
      }
      // expected outputs
      std::vector<uint8_t> e;
      for (auto& o : p.o) {
        if (o.kind == 0) e.push_back(s[o.ofs]); else if (o.kind == 1) e.push_back(o.val); else if (o.kind == 2) e.push_back(d[o.ofs]);
        else for (size_t i = 0; i < N; ++i) { e.push_back((s[i / 8] >> (i % 8)) & 1); for (size_t j = 1; j < S; ++j) e.push_back(0); }
      }
      if (got != e.size() || memcmp(out, e.data(), got)) {
        size_t k = 0; while (k < got && k < e.size() && out[k] == e[k]) ++k;
        R.Viol(key, Fmt("output byte %zu of %zu (expected %zu): got %02x expected %02x ", k, got, e.size(), k < got ? out[k] : 0, k < e.size() ? e[k] : 0) + desc()); return;
      }
      uint64_t h = HashBytes(uint64_t(sp.fn != nullptr) + vc.ty + 100 * N, vc.op, strlen(vc.op));
      h = HashBytes(h, I.mask, sp.num || sp.idx ? 0 : B); h = Mix(h, I.n * 9 + uint64_t(ms_) * 3 + uint64_t(md_));
      if (!p.o.empty() || !p.writes.empty()) seen.insert(h);
      if (it == 5 && N == 8 && vc.ty == U32) R.Sample(key + ": " + desc() + Fmt(" out[0..8)=%02x%02x%02x%02x%02x%02x%02x%02x", out[0], out[1], out[2], out[3], out[4], out[5], out[6], out[7]));
    }
  }
};
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt;
  Report& R = Rep(); R.Parse(argc, argv);
  InstallFaultHandler();
  struct Job { const VecCase* v; const Spec* s; };
  std::vector<Job> jobs; std::set<std::string> ops;
  for (auto& vc : VecCases()) {
    if (!CpuSupports(vc.target)) { R.skipped.insert(vc.target); continue; }
    R.targets.insert(vc.target);
    if (!R.Want(vc.op)) continue;
    for (auto& s : kSpecs) if (!strcmp(s.op, vc.op)) { jobs.push_back({&vc, &s}); ops.insert(vc.op); }
  }
  std::atomic<size_t> next{0};
  std::vector<std::thread> th;
  for (int t = 0; t < R.threads; ++t) th.emplace_back([&] {
    Worker* w = new Worker;
    for (;;) { const size_t i = next++; if (i >= jobs.size()) break; w->Run(*jobs[i].v, *jobs[i].s, R.thorough ? 6000 : 400, MemMightFault()[jobs[i].v->target]); if (w->seen.size() > 100000) { R.SeeAll(w->seen); w->seen.clear(); } }
    R.SeeAll(w->seen);
  });
  for (auto& t : th) t.join();
  R.counters["ops"] = ops.size(); R.counters["cases"] = jobs.size();
  return R.Write();
}
