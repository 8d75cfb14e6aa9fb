// Monitors VQSort / VQPartialSort / VQSelect. Keys are handled as bytes here; the
// order and permutation oracles are independent of Highway.
#include <algorithm>
#include <thread>
#include "../common/cpu.h"
#include "../common/guard.h"
#include "../common/report.h"
#include "../common/watch.h"
#include "sort.h"
namespace vt {
std::vector<SortFn>& SortFns() { static auto* v = new std::vector<SortFn>; return *v; }
static thread_local uint64_t tl_entropy = 1;
static std::atomic<uint64_t> g_fills{0};
static const char* kNames[] = {"u16", "i16", "u32", "i32", "u64", "i64", "f16", "f32", "f64", "u128", "K32V32", "K64V64"};
static const size_t kBytes[] = {2, 2, 4, 4, 8, 8, 2, 4, 8, 16, 8, 16};
static int KeyBits(KeyKind k) { static const int b[] = {16, 16, 32, 32, 64, 64, 16, 32, 64, 128, 32, 64}; return b[k]; }
static bool IsFloat(KeyKind k) { return k == kF16 || k == kF32 || k == kF64; }
static bool IsKV(KeyKind k) { return k == kKV64 || k == kKV128; }
using u128 = unsigned __int128;
// Raw element, value part in the low half for key-value types.
static u128 Load(const uint8_t* p, size_t S) { u128 v = 0; memcpy(&v, p, S); return v; }
static bool IsNaNRaw(KeyKind k, u128 v) {
  switch (k) {
    case kF16: return (uint64_t(v) & 0x7FFF) > 0x7C00;
    case kF32: return (uint64_t(v) & 0x7FFFFFFF) > 0x7F800000;
    case kF64: return (uint64_t(v) & 0x7FFFFFFFFFFFFFFFull) > 0x7FF0000000000000ull;
    default: return false;
  }
}
// Monotone map of the key to unsigned; equivalent keys map to the same number.
static u128 Rank(KeyKind k, u128 v) {
  const uint64_t lo = uint64_t(v);
  auto flt = [](uint64_t x, int bits) -> u128 {
    const uint64_t sign = 1ull << (bits - 1), mag = x & (sign - 1);
    if (mag == 0) return sign;  // -0 == +0
    return (x & sign) ? sign - mag : sign + mag;
  };
  switch (k) {
    case kU16: case kU32: case kU64: case kU128: return v;
    case kI16: return (lo ^ 0x8000) & 0xFFFF;
    case kI32: return (lo ^ 0x80000000u) & 0xFFFFFFFFu;
    case kI64: return lo ^ 0x8000000000000000ull;
    case kF16: return flt(lo, 16);
    case kF32: return flt(lo, 32);
    case kF64: return flt(lo, 64);
    case kKV64: return lo >> 32;
    case kKV128: return v >> 64;
  }
  return 0;
}
// ---------------------------------------------------------------- inputs
static u128 RawOfFloat(KeyKind k, double d) {
  if (k == kF32) { float f = float(d); uint32_t b; memcpy(&b, &f, 4); return b; }
  if (k == kF64) { uint64_t b; memcpy(&b, &d, 8); return b; }
  _Float16 h = _Float16(float(d)); uint16_t b; memcpy(&b, &h, 2); return b;
}
static u128 Mask(int bits) { return bits == 128 ? ~u128(0) : (u128(1) << bits) - 1; }
static u128 RandKey(KeyKind k, Rng& g) { const u128 r = (u128(g()) << 64) | g(); return r & Mask(KeyBits(k)); }
static u128 ExtremeKey(KeyKind k, Rng& g) {
  const int B = KeyBits(k); const u128 m = Mask(B);
  if (IsFloat(k)) {
    const int mant = k == kF16 ? 10 : k == kF32 ? 23 : 52;
    const u128 sign = u128(1) << (B - 1), inf = (Mask(B - 1) >> mant) << mant;
    const u128 s = g.below(2) ? sign : 0;
    switch (g.below(6)) { case 0: return s; case 1: return s | inf; case 2: return s | (inf - 1); case 3: return s | 1; case 4: return s | (inf >> 1); default: return s | ((inf >> 1) + 1); }
  }
  switch (g.below(8)) {
    case 0: return 0; case 1: return m; case 2: return u128(1) << (B - 1); case 3: return m >> 1; case 4: return m - 1; case 5: return 1;
    case 6: return B == 128 ? (u128(1) << 64) : (u128(1) << (B - 1)) + 1; default: return B == 128 ? Mask(64) : (m >> 1) - 1;
  }
}
static const char* kDist[] = {"random", "two", "three", "few", "equal", "sorted", "reversed", "organ", "extreme", "zero-one", "almost-equal", "sawtooth", "runs", "extreme-mix", "low-entropy", "hi-only", "lo-only", "nan-some", "nan-many", "all-but-one-last", "median3-killer", "nearly-sorted", "zeros"};
enum { kNumDist = 23 };
static void Gen(KeyKind k, int dist, Rng& g, std::vector<u128>& v) {
  const size_t n = v.size(); const int B = KeyBits(k); const u128 m = Mask(B);
  auto ord = [&](size_t i) -> u128 {  // i-th of an increasing sequence
    if (IsFloat(k)) return RawOfFloat(k, double(int64_t(i) - int64_t(n / 2)) * 0.5);
    if (B == 128) return (u128(i / 3) << 64) | (i % 3);
    const u128 x = n > 60000 && B == 16 ? i * 65535 / n : i;
    return (k == kI16 || k == kI32 || k == kI64) ? (x - n / 2) & m : x & m;
  };
  u128 pool[16]; for (auto& p : pool) p = g.below(3) ? RandKey(k, g) : ExtremeKey(k, g);
  for (size_t i = 0; i < n; ++i) {
    u128 x;
    switch (dist) {
      case 1: x = pool[g.below(2)]; break;
      case 2: x = pool[g.below(3)]; break;
      case 3: x = pool[g.below(16)]; break;
      case 4: x = pool[0]; break;
      case 5: x = ord(i); break;
      case 6: x = ord(n - 1 - i); break;
      case 7: x = ord(i < n / 2 ? 2 * i : 2 * (n - 1 - i)); break;
      case 8: x = ExtremeKey(k, g); break;
      case 9: x = ord(g.below(2) * (n ? n - 1 : 0)); break;
      case 10: x = g.below(n ? n : 1) < 2 ? pool[1] : pool[0]; break;
      case 11: x = ord(i % 37); break;
      case 12: x = ord((i / 19) * 7 % (n + 1)); break;
      case 13: x = g.below(2) ? ExtremeKey(k, g) : RandKey(k, g); break;
      case 14: x = IsFloat(k) ? RawOfFloat(k, double(g.below(11)) - 5) : u128(g.below(11)); break;
      case 15: x = B >= 64 ? (u128(g.below(5)) << (B / 2)) | (B == 128 ? 7 : 0) : RandKey(k, g); break;
      case 16: x = B == 128 ? (u128(5) << 64) | g() : RandKey(k, g); break;
      case 17: x = RandKey(k, g); if (IsFloat(k) && g.below(4) == 0) { const int mant = k == kF16 ? 10 : k == kF32 ? 23 : 52; const u128 inf = (Mask(B - 1) >> mant) << mant; x = inf | (1 + g.below(3)) | (u128(g.below(2)) << (B - 1)); } break;
      case 18: x = RandKey(k, g); if (IsFloat(k) && g.below(8)) { const int mant = k == kF16 ? 10 : k == kF32 ? 23 : 52; const u128 inf = (Mask(B - 1) >> mant) << mant; x = inf | (u128(1) << (mant - 1)); } else if (IsFloat(k)) x = g.below(2) ? ExtremeKey(k, g) : RandKey(k, g); break;
      case 19: x = i + 1 == n ? pool[1] : pool[0]; break;
      case 20: x = ord(i & 1 ? i : n - i); break;
      case 21: x = ord(i); if (g.below(20) == 0) x = ord(g.below(n)); break;
      case 22: x = IsFloat(k) ? (u128(g.below(2)) << (B - 1)) : u128(g.below(2)); if (IsFloat(k) && g.below(5) == 0) x = RawOfFloat(k, g.below(2) ? 1 : -1); break;
      default: x = RandKey(k, g); break;
    }
    // Random bits may be NaN; only the nan distributions keep them.
    if (IsFloat(k) && dist != 17 && dist != 18 && IsNaNRaw(k, x)) x = RawOfFloat(k, double(int64_t(g() >> 50)) - 4096);
    if (k == kKV64) x = (x << 32) | (i & 0xFFFFFFFF);
    if (k == kKV128) x = (x << 64) | u128(i);
    v[i] = x;
  }
}
// ---------------------------------------------------------------- monitor
struct Worker {
  Arena arena{384};
  std::vector<u128> in, out, a, b;
  std::unordered_set<uint64_t> seen;
  Rng g{1};
  uint64_t orders = 0, nans = 0;
  std::string Desc(const SortFn& f, int dist, size_t n, size_t k, size_t off) { return Fmt("%s %s %s dist=%s n=%zu k=%zu align=%zu", f.target, kNames[f.kind], f.ascending ? "asc" : "desc", kDist[dist], n, k, off); }
  // op: 0 sort 1 partial 2 select. |tail|: end of array at the guard page, else start.
  void One(const SortFn& f, int op, int dist, size_t n, size_t k, bool tail) {
    Report& R = Rep();
    const size_t S = kBytes[f.kind];
    in.resize(n); Gen(f.kind, dist, g, in);
    const size_t bytes = n * S;
    const size_t al = tail ? 0 : g.below(4) ? 0 : S * g.below(64 / S);
    uint8_t* p = tail ? arena.end() - bytes : arena.begin() + al;
    const size_t canary = 256;
    uint8_t* before = tail ? p - canary : arena.begin();
    const size_t nb = tail ? canary : al;
    uint8_t* after = p + bytes; const size_t na = tail ? 0 : canary;
    memset(before, 0xA5, nb); memset(after, 0x5A, na);
    for (size_t i = 0; i < n; ++i) memcpy(p + i * S, &in[i], S);
    static const char* ops[] = {"VQSort", "VQPartialSort", "VQSelect"};
    const std::string key = Fmt("%s/%s/%s/%s", ops[op], kNames[f.kind], f.ascending ? "asc" : "desc", f.target);
    int sig;
    {
      Watched w("%s|dist=%s n=%zu k=%zu", key.c_str(), kDist[dist], n, k);
      sig = Guarded([&] { if (op == 0) f.sort(p, n); else if (op == 1) f.partial(p, n, k); else f.select(p, n, k); });
    }
    R.Eval();
    if (sig) { R.Viol(key + "/fault", Desc(f, dist, n, k, al) + Fmt(" signal %d at array%+ld (bytes %zu)", sig, long((uint8_t*)tl_addr - p), bytes)); return; }
    for (size_t i = 0; i < nb; ++i) if (before[i] != 0xA5) { R.Viol(key + "/wrote-outside", Desc(f, dist, n, k, al)); break; }
    for (size_t i = 0; i < na; ++i) if (after[i] != 0x5A) { R.Viol(key + "/wrote-outside", Desc(f, dist, n, k, al)); break; }
    out.resize(n);
    for (size_t i = 0; i < n; ++i) out[i] = Load(p + i * S, S);
    // NaN keys: counted, then only their number and position matter.
    size_t nan_in = 0, nan_out = 0;
    if (IsFloat(f.kind)) {
      for (u128 x : in) nan_in += IsNaNRaw(f.kind, x);
      for (u128 x : out) nan_out += IsNaNRaw(f.kind, x);
      if (nan_in != nan_out) { R.Viol(key + "/nan-count", Desc(f, dist, n, k, al) + Fmt(" NaN keys in %zu out %zu", nan_in, nan_out)); return; }
      for (size_t i = n - nan_in; i < n; ++i) if (!IsNaNRaw(f.kind, out[i])) { R.Viol(key + "/nan-not-last", Desc(f, dist, n, k, al) + Fmt(" index %zu of %zu, %zu NaN", i, n, nan_in)); return; }
    }
    nans += nan_in;
    a.clear(); b.clear();
    for (u128 x : in) if (!IsNaNRaw(f.kind, x)) a.push_back(x);
    for (u128 x : out) if (!IsNaNRaw(f.kind, x)) b.push_back(x);
    const size_t m = a.size();
    auto less = [&](u128 x, u128 y) { const u128 rx = Rank(f.kind, x), ry = Rank(f.kind, y); return f.ascending ? rx < ry : ry < rx; };
    const size_t kk = std::min(op == 0 ? m : k, m);
    // Order.
    const size_t sorted_to = op == 2 ? 0 : kk;
    for (size_t i = 1; i < sorted_to; ++i) {
      ++orders;
      if (less(b[i], b[i - 1])) { R.Viol(key + "/order", Desc(f, dist, n, k, al) + Fmt(" positions %zu,%zu out of order", i - 1, i)); return; }
    }
    // Permutation: same multiset of raw elements (value part included).
    std::vector<u128>& sa = a; std::vector<u128> sb = b;
    std::sort(sa.begin(), sa.end()); std::sort(sb.begin(), sb.end());
    if (sa != sb) {
      // Differences only in the sign of zero keys have their own key.
      bool zero_only = IsFloat(f.kind);
      if (zero_only) {
        auto norm = [&](std::vector<u128> v) { for (auto& x : v) if ((x & Mask(KeyBits(f.kind) - 1)) == 0) x = 0; std::sort(v.begin(), v.end()); return v; };
        zero_only = norm(sa) == norm(sb);
      }
      R.Viol(zero_only ? Fmt("%s/%s/zero-sign-multiset", ops[op], kNames[f.kind]) : key + "/multiset", Desc(f, dist, n, k, al)); return;
    }
    if (op != 0 && m) {
      std::sort(sb.begin(), sb.end(), less);
      if (op == 1) {
        for (size_t i = 0; i < kk; ++i) if (Rank(f.kind, sb[i]) != Rank(f.kind, b[i])) { R.Viol(key + "/prefix", Desc(f, dist, n, k, al) + Fmt(" index %zu", i)); return; }
      } else if (k < m) {
        if (Rank(f.kind, sb[k]) != Rank(f.kind, b[k])) { R.Viol(key + "/kth", Desc(f, dist, n, k, al)); return; }
        for (size_t i = 0; i < m; ++i) { ++orders; if (i < k ? less(b[k], b[i]) : less(b[i], b[k])) { R.Viol(key + "/partition", Desc(f, dist, n, k, al) + Fmt(" index %zu", i)); return; } }
      }
    }
    uint64_t h = Mix(uint64_t(f.kind) * 64 + uint64_t(op) * 2 + f.ascending, n);
    for (size_t i = 0; i < std::min<size_t>(n, 64); ++i) h = Mix(h, uint64_t(in[i]) ^ uint64_t(in[i] >> 64));
    if (n >= 2) seen.insert(Mix(h, k));
    if (n == 24 && dist == 0 && g.below(50) == 0) R.Sample(Desc(f, dist, n, k, al) + Fmt(" first=%llx last=%llx", (unsigned long long)out[0], (unsigned long long)out[n - 1]));
  }
  void Cases(const SortFn& f, int op, uint64_t seed, bool thorough) {
    g.s = seed;
    const size_t S = kBytes[f.kind];
    const size_t N = std::max<size_t>(1, f.lanes / S);
    const size_t base = 16 * std::min<size_t>(16, std::max<size_t>(N, 1)) + 40;  // beyond every base case
    const bool heap = !strcmp(f.target, "SCALAR");
    auto ks = [&](size_t n, auto&& fn) {
      if (op == 0) { fn(size_t(0)); return; }
      const size_t lim = op == 1 ? n + 1 : n;  // valid k: partial [0,n], select [0,n)
      if (lim == 0) return;
      fn(size_t(g.below(lim)));
      switch (g.below(6)) { case 0: fn(size_t(0)); break; case 1: fn(lim - 1); break; case 2: fn(lim / 2); break; case 3: fn(std::min<size_t>(lim - 1, 1)); break; default: break; }
    };
    const double scale = getenv("VT_SCALE") ? atof(getenv("VT_SCALE")) : 1;
    const int reps = std::max(2, int((thorough ? 400 : 100) * scale));
    // Every size up to beyond the base case.
    for (size_t n = 0; n <= base; ++n)
      for (int r = 0; r < reps; ++r) {
        const int dist = r < 2 ? 0 : int(g.below(kNumDist));
        ks(n, [&](size_t k) { One(f, op, dist, n, k, g.below(2)); });
      }
    // 0-1 principle, exhaustive for short arrays.
    for (size_t n = 2; n <= (thorough ? 14u : 9u); ++n)
      for (uint32_t bits = 0; bits < (1u << n); ++bits) ZeroOne(f, op, n, bits);
    // Larger sizes, every distribution.
    const int big = std::max(2, int((thorough ? 150 : 30) * scale));
    for (int dist = 0; dist < kNumDist; ++dist) {
      for (int r = 0; r < big; ++r) {
        size_t n;
        switch (r % 4) { case 0: n = base + g.below(8 * base); break; case 1: n = base + g.below(400); break; case 2: n = 1000 + g.below(heap ? 2000 : 6000); break; default: n = (size_t(1) << (8 + g.below(heap ? 3 : 5))) + g.below(5) - 2; break; }
        ks(n, [&](size_t k) { One(f, op, dist, n, k, g.below(2)); });
      }
    }
    for (int r = 0; r < (thorough ? 30 : 3) * scale; ++r) { const size_t n = (heap ? 8000 : 40000) + g.below(20000); ks(n, [&](size_t k) { One(f, op, int(g.below(kNumDist)), n, k, true); }); }
    Rep().SeeAll(seen); seen.clear();
  }
  void ZeroOne(const SortFn& f, int op, size_t n, uint32_t bits) {
    // Realised through the generic path with a fixed pattern.
    const size_t S = kBytes[f.kind];
    uint8_t* p = arena.end() - n * S;
    const u128 one = IsFloat(f.kind) ? RawOfFloat(f.kind, 1) : u128(1), sh = IsKV(f.kind) ? KeyBits(f.kind) : 0;
    size_t ones = 0;
    for (size_t i = 0; i < n; ++i) { u128 x = (bits >> i & 1) ? one : 0; ones += bits >> i & 1; x <<= sh; if (IsKV(f.kind)) x |= i; memcpy(p + i * S, &x, S); }
    const size_t k = op == 0 ? 0 : bits % n;
    const std::string key = Fmt("%s/%s/%s/%s", op == 0 ? "VQSort" : op == 1 ? "VQPartialSort" : "VQSelect", kNames[f.kind], f.ascending ? "asc" : "desc", f.target);
    const int sig = Guarded([&] { if (op == 0) f.sort(p, n); else if (op == 1) f.partial(p, n, k); else f.select(p, n, k); });
    Rep().Eval();
    if (sig) { Rep().Viol(key + "/fault", Fmt("0-1 n=%zu bits=%x", n, bits)); return; }
    size_t got = 0; uint64_t vals = 0;
    for (size_t i = 0; i < n; ++i) {
      const u128 x = Load(p + i * S, S);
      const bool bit = (x >> sh) != 0; got += bit;
      if (IsKV(f.kind)) { const size_t o = size_t(x & Mask(int(sh))); if (o >= n || ((bits >> o & 1) != 0) != bit) { Rep().Viol(key + "/multiset", Fmt("0-1 n=%zu bits=%x", n, bits)); return; } vals |= 1ull << o; }
      const bool want = f.ascending ? i >= n - ones : i < ones;
      const bool checked = op == 0 || (op == 1 && i < k) || (op == 2 && i == k);
      if (checked && bit != want) { Rep().Viol(key + (op == 2 ? "/kth" : "/order"), Fmt("0-1 n=%zu bits=%x k=%zu index %zu", n, bits, k, i)); return; }
    }
    if (got != ones || (IsKV(f.kind) && vals != (1ull << n) - 1)) Rep().Viol(key + "/multiset", Fmt("0-1 n=%zu bits=%x", n, bits));
  }
};
}  // namespace vt
// Stands in for the entropy source so that pivots depend on the seed only.
#ifdef VT_OWN_ENTROPY
namespace hwy {
bool Fill16BytesSecure(void* p) {
  vt::Rng g(vt::tl_entropy); uint64_t v[2] = {g(), g()}; ++vt::g_fills;
  if (vt::tl_entropy % 5 == 0) v[0] = v[1] = 0;
  memcpy(p, v, 16); return true;
}
}  // namespace hwy
#endif
int main(int argc, char** argv) {
  using namespace vt;
  Report& R = Rep(); R.Parse(argc, argv);
  InstallFaultHandler(); StartWatchdog();
  struct Job { const SortFn* f; int op; };
  std::vector<Job> jobs;
  for (auto& f : SortFns()) {
    const bool d = !strcmp(f.target, "dispatch") || !strcmp(f.target, "Sorter");
    if (!d && !CpuSupports(f.target)) { R.skipped.insert(f.target); continue; }
    R.targets.insert(f.target);
    const int want = R.only == "select" ? 1 : R.only == "sort" ? 0 : -1;
    if (f.sort && want != 1) jobs.push_back({&f, 0});
    if (f.partial && want != 0) jobs.push_back({&f, 1});
    if (f.select && want != 0) jobs.push_back({&f, 2});
  }
  std::atomic<size_t> next{0};
  std::atomic<uint64_t> orders{0}, nans{0};
  // A fresh thread per job: the library keeps its generator in thread-local storage.
  std::vector<std::thread> th;
  for (int t = 0; t < R.threads; ++t) th.emplace_back([&] {
    for (;;) {
      const size_t i = next++; if (i >= jobs.size()) return;
      std::thread([&, i] {
        tl_entropy = Mix(R.seed, i);
        Worker* w = new Worker;
        w->Cases(*jobs[i].f, jobs[i].op, Mix(R.seed * 977, i), R.thorough);
        orders += w->orders; nans += w->nans;
        delete w;
      }).join();
    }
  });
  for (auto& t : th) t.join();
  R.counters["sorters (op x type x order x target)"] = jobs.size();
  R.counters["adjacent or pivot orders compared"] = orders; R.counters["NaN keys fed"] = nans; R.counters["generator seedings observed"] = g_fills;
  return R.Write();
}
