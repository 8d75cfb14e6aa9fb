// P12: aligned allocator. A recording allocator hands out memory at every
// misalignment, exactly as large as asked, next to canaries or an inaccessible
// page; the monitor checks pairing, alignment, disjointness and element lifetimes.
#include "../common/report.h"
#include "../common/guard.h"
#include "../common/aborts.h"
#include <thread>
#include <memory>
#include <limits>
#include "hwy/aligned_allocator.h"
namespace vt {
constexpr size_t kDocAlign = HWY_ALIGNMENT;
// -------- recording allocator
struct Rec {
  std::mutex mu;
  struct Blk { void* base; size_t bytes; uint8_t* map; size_t map_bytes; bool guard; };
  std::map<void*, Blk> live;
  uint64_t allocs = 0, frees = 0, bad_free = 0, fail_next = 0; std::string bad;
  size_t misalign = 0; bool guard = false; uint8_t junk = 0xA5;
  std::set<size_t> misaligns;
  static void* Alloc(void* o, size_t n) {
    Rec& r = *static_cast<Rec*>(o); std::lock_guard<std::mutex> l(r.mu);
    if (r.fail_next) { --r.fail_next; return nullptr; }
    ++r.allocs; r.misaligns.insert(r.misalign);
    Blk b; b.bytes = n; b.guard = r.guard;
    if (r.guard) {  // last byte just before an inaccessible page
      const size_t pages = (n + 2 * kPage - 1) / kPage + 1;
      b.map_bytes = (pages + 1) * kPage;
      b.map = static_cast<uint8_t*>(mmap(nullptr, b.map_bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      mprotect(b.map + pages * kPage, kPage, PROT_NONE);
      b.base = b.map + pages * kPage - n;
    } else {
      b.map_bytes = n + 1024; b.map = static_cast<uint8_t*>(malloc(b.map_bytes));
      uint8_t* p = b.map + 256; p += (128 - reinterpret_cast<uintptr_t>(p) % 128) % 128; b.base = p + r.misalign;
      memset(b.map, 0x5C, b.map_bytes);
    }
    memset(b.base, r.junk, n);
    r.live[b.base] = b; return b.base;
  }
  static bool Clean(const Blk& b) {
    if (b.guard) return true;
    for (uint8_t* p = b.map; p < static_cast<uint8_t*>(b.base); ++p) if (*p != 0x5C) return false;
    for (uint8_t* p = static_cast<uint8_t*>(b.base) + b.bytes; p < b.map + b.map_bytes; ++p) if (*p != 0x5C) return false;
    return true;
  }
  static void Free(void* o, void* p) {
    Rec& r = *static_cast<Rec*>(o); std::lock_guard<std::mutex> l(r.mu);
    ++r.frees;
    auto it = r.live.find(p);
    if (it == r.live.end()) { ++r.bad_free; r.bad = Fmt("free of %p which was not handed out (or twice)", p); return; }
    if (!Clean(it->second)) { ++r.bad_free; r.bad = Fmt("bytes outside the %zu-byte block were changed", it->second.bytes); }
    if (it->second.guard) munmap(it->second.map, it->second.map_bytes); else free(it->second.map);
    r.live.erase(it);
  }
  const Blk* Owner(const void* p, size_t n) {
    for (auto& kv : live) if (static_cast<const uint8_t*>(p) >= static_cast<uint8_t*>(kv.second.base) && static_cast<const uint8_t*>(p) + n <= static_cast<uint8_t*>(kv.second.base) + kv.second.bytes) return &kv.second;
    return nullptr;
  }
};
static bool Aligned(const void* p) { return reinterpret_cast<uintptr_t>(p) % kDocAlign == 0; }
static size_t PickSize(Rng& g) {
  switch (g.below(8)) { case 0: return 1 + g.below(16); case 1: return 1 + g.below(300); case 2: return size_t{1} << g.below(14); case 3: return (size_t{1} << g.below(14)) + 1; case 4: return std::max<size_t>(1, (size_t{2} << g.below(13)) - 1); case 5: return 128 * (1 + g.below(40)); case 6: return 1 + g.below(70000); default: return 1 + g.below(4096); }
}
static void Raw(uint64_t seed, int steps) {
  Report& R = Rep(); Rng g(seed); Rec rec;
  struct L { uint8_t* p; size_t n; uint8_t fill; int kind; }; std::vector<L> live;
  auto drop = [&](size_t i) {
    L l = live[i]; live[i] = live.back(); live.pop_back();
    for (size_t k = 0; k < l.n; ++k) if (l.p[k] != uint8_t(l.fill + k)) { R.Viol("aligned/contents-changed", Fmt("payload %zu byte %zu while other blocks were written", l.n, k)); break; }
    if (l.kind == 0) hwy::FreeAlignedBytes(l.p, nullptr, nullptr); else hwy::FreeAlignedBytes(l.p, &Rec::Free, &rec);
  };
  for (int s = 0; s < steps; ++s) {
    R.Eval();
    if (!live.empty() && (g.below(5) < 2 || live.size() > 60)) { drop(g.below(live.size())); continue; }
    const size_t n = PickSize(g); const int kind = g.below(3) != 0;
    rec.misalign = g.below(128); rec.guard = g.below(6) == 0; rec.junk = uint8_t(g());
    const size_t before = rec.live.size();
    const bool fail = kind == 1 && g.below(20) == 0; if (fail) rec.fail_next = 1;
    AbortContext() = Fmt("AllocateAlignedBytes|%zu", n);
    auto* p = static_cast<uint8_t*>(kind ? hwy::AllocateAlignedBytes(n, &Rec::Alloc, &rec) : hwy::AllocateAlignedBytes(n));
    AbortContext().clear();
    if (fail) { R.Check(p == nullptr && rec.live.size() == before, "aligned/exhausted-not-null", "n=%zu", n); R.Count("exhausted allocators"); continue; }
    if (!R.Check(p != nullptr, "aligned/null", "n=%zu", n)) continue;
    R.Check(Aligned(p) && hwy::IsAligned(p), "aligned/alignment", "n=%zu p=%p misalign=%zu", n, (void*)p, rec.misalign);
    if (kind == 1) { R.Check(rec.live.size() == before + 1, "aligned/alloc-calls", "n=%zu", n); if (!R.Check(rec.Owner(p, n) != nullptr, "aligned/outside-block", "n=%zu misalign=%zu guard=%d", n, rec.misalign, rec.guard)) { continue; } }
    for (auto& l : live) R.Check(p + n <= l.p || l.p + l.n <= p, "aligned/overlap", "n=%zu and %zu", n, l.n);
    const uint8_t fill = uint8_t(g()); for (size_t k = 0; k < n; ++k) p[k] = uint8_t(fill + k);
    live.push_back({p, n, fill, kind}); R.See(Mix(Mix(n, rec.misalign), uint64_t(kind * 2 + rec.guard)));
    if (g.below(3000) == 0) R.Sample(Fmt("n=%zu misalign=%zu guard=%d -> %p", n, rec.misalign, int(rec.guard), (void*)p));
  }
  while (!live.empty()) drop(live.size() - 1);
  hwy::FreeAlignedBytes(nullptr, &Rec::Free, &rec);
  R.Check(!rec.bad_free, "aligned/bad-free", "%s", rec.bad.c_str());
  R.Check(rec.allocs == rec.frees && rec.live.empty(), "aligned/alloc-free-mismatch", "%llu allocs %llu frees", (unsigned long long)rec.allocs, (unsigned long long)rec.frees);
  R.Max("max misalignments tried", rec.misaligns.size());
}
// -------- element lifetimes
struct Life { std::map<const void*, int> alive; uint64_t ctors = 0, dtors = 0, bad = 0; std::vector<uint64_t> args; };
static thread_local Life* tl_life = nullptr;
template <size_t kSize> struct Elem {
  uint8_t raw[kSize];
  explicit Elem(uint64_t arg = 7) { Life& l = *tl_life; ++l.ctors; if (l.alive[this]++ != 0) ++l.bad; l.args.push_back(arg); memset(raw, int(arg & 255), kSize); }
  Elem(uint64_t a, std::unique_ptr<int> b) : Elem(a + uint64_t(*b)) {}
  ~Elem() { Life& l = *tl_life; ++l.dtors; auto it = l.alive.find(this); if (it == l.alive.end() || it->second != 1) ++l.bad; else l.alive.erase(it); }
};
template <size_t kSize> static void Elements(uint64_t seed, int steps) {
  using E = Elem<kSize>; static_assert(sizeof(E) == kSize, "");
  Report& R = Rep(); Rng g(seed); Rec rec; rec.misalign = g.below(128);
  for (int s = 0; s < steps; ++s) {
    Life life; tl_life = &life; R.Eval();
    const size_t n = g.below(4) == 0 ? 1 + g.below(3) : 1 + g.below(200);
    const uint64_t arg = g();
    rec.misalign = g.below(128); rec.guard = g.below(16) == 0;
    uint64_t want = 0;
    AbortContext() = Fmt("MakeUniqueAligned|size %zu n=%zu", kSize, n);
    switch (s % 6) {
      case 0: { auto p = hwy::MakeUniqueAlignedArray<E>(n, arg); want = n; R.Check(Aligned(p.get()), "MakeUniqueAlignedArray/alignment", "size %zu", kSize); for (size_t i = 0; i < n; ++i) R.Check(life.alive.count(&p[i]) == 1, "MakeUniqueAlignedArray/not-constructed", "size %zu n=%zu i=%zu", kSize, n, i); } break;
      case 1: { auto p = hwy::MakeUniqueAlignedArrayWithAlloc<E>(n, &Rec::Alloc, &Rec::Free, &rec, arg); want = n; for (size_t i = 0; i < n; ++i) R.Check(life.alive.count(&p[i]) == 1, "MakeUniqueAlignedArray/not-constructed", "size %zu n=%zu i=%zu", kSize, n, i); R.Check(rec.Owner(p.get(), n * kSize) != nullptr, "MakeUniqueAlignedArray/outside-block", "size %zu n=%zu", kSize, n); auto q = std::move(p); p.reset(); R.Check(life.dtors == 0, "MakeUniqueAlignedArray/early-destroy", "n=%zu", n); } break;
      case 2: { auto p = hwy::MakeUniqueAligned<E>(arg, std::unique_ptr<int>(new int(3))); want = 1; R.Check(Aligned(p.get()) && life.args == std::vector<uint64_t>{arg + 3}, "MakeUniqueAligned/args", "size %zu", kSize); life.args.assign(1, arg); } break;
      case 3: { auto p = hwy::MakeUniqueAlignedWithAlloc<E>(&Rec::Alloc, &Rec::Free, &rec, arg); want = 1; R.Check(Aligned(p.get()) && rec.Owner(p.get(), kSize), "MakeUniqueAligned/outside-block", "size %zu", kSize); } break;
      case 4: { rec.fail_next = 1; auto p = hwy::MakeUniqueAlignedArrayWithAlloc<E>(n, &Rec::Alloc, &Rec::Free, &rec, arg); R.Check(p.get() == nullptr, "MakeUniqueAlignedArray/exhausted-not-null", "n=%zu", n); } break;
      case 5: { rec.fail_next = 1; const int sig = Guarded([&] { auto p = hwy::MakeUniqueAlignedWithAlloc<E>(&Rec::Alloc, &Rec::Free, &rec, arg); R.Check(p.get() == nullptr, "MakeUniqueAligned/exhausted-not-null", "size %zu", kSize); }); R.Check(sig == 0, "MakeUniqueAligned/exhausted-crash", "signal %d when the allocator returns null", sig); } break;
    }
    AbortContext().clear();
    R.Check(life.ctors == want && life.dtors == want && !life.bad && life.alive.empty(), "aligned/element-lifetime", "case %d size %zu n=%zu: %llu constructed, %llu destroyed, %llu wrong, want %llu", s % 6, kSize, n, (unsigned long long)life.ctors, (unsigned long long)life.dtors, (unsigned long long)life.bad, (unsigned long long)want);
    for (uint64_t a : life.args) R.Check(a == arg, "aligned/constructor-args", "case %d", s % 6);
    R.See(Mix(Mix(kSize, n), uint64_t(s % 6)));
  }
  R.Check(!rec.bad_free && rec.live.empty() && rec.allocs == rec.frees, "aligned/bad-free", "size %zu: %s", kSize, rec.bad.c_str());
}
// -------- typed arrays, overflow, vectors
template <class T> static void Typed(uint64_t seed, int steps) {
  Report& R = Rep(); Rng g(seed); Rec rec;
  for (int s = 0; s < steps; ++s) {
    R.Eval(); const size_t n = 1 + g.below(2000); rec.misalign = g.below(128);
    auto p = (s & 1) ? hwy::AllocateAligned<T>(n) : hwy::AllocateAligned<T>(n, &Rec::Alloc, &Rec::Free, &rec);
    if (!R.Check(p.get() && Aligned(p.get()), "AllocateAligned/alignment", "sizeof=%zu n=%zu", sizeof(T), n)) continue;
    if (!(s & 1)) R.Check(rec.Owner(p.get(), n * sizeof(T)) != nullptr, "AllocateAligned/outside-block", "sizeof=%zu n=%zu", sizeof(T), n);
    memset(static_cast<void*>(p.get()), 0x11, n * sizeof(T));
  }
  // Requests whose byte count overflows or is absurd.
  const size_t kMax = std::numeric_limits<size_t>::max();
  std::vector<size_t> bad;
  for (int k = 0; k < 60; ++k) bad.push_back(kMax / sizeof(T) + 1 + g.below(1000));
  for (size_t k = 1; k < 64; ++k) bad.push_back((size_t{1} << k) / sizeof(T) * (kMax / (size_t{1} << k)) + kMax / sizeof(T) + k);
  bad.push_back(kMax); bad.push_back(kMax - 1); bad.push_back(kMax / 2 + 1); for (int k = 0; k < 100; ++k) bad.push_back(kMax / sizeof(T) + 1 + g() % (kMax - kMax / sizeof(T) + (sizeof(T) == 1)));
  if (sizeof(T) > 1) for (size_t n : bad) {
    if (n <= kMax / sizeof(T)) continue;
    R.Eval(); const uint64_t before = rec.allocs;
    { auto p = hwy::AllocateAligned<T>(n, &Rec::Alloc, &Rec::Free, &rec); R.Check(!p.get() && rec.allocs == before, "AllocateAligned/overflow-not-null", "sizeof=%zu n=%zu", sizeof(T), n); }
    { hwy::AlignedAllocator<T> a; T* p = a.allocate(n); R.Check(p == nullptr, "AlignedAllocator/overflow-not-null", "sizeof=%zu n=%zu", sizeof(T), n); a.deallocate(p, n); }
    R.See(Mix(sizeof(T), n)); R.Count("overflowing requests");
  }
  hwy::AlignedVector<T> v; std::vector<T> ref;
  for (int s = 0; s < steps * 3; ++s) {
    R.Eval(); T x; const uint64_t bits = g(); memset(&x, 0, sizeof(x)); memcpy(&x, &bits, std::min(sizeof(x), sizeof(bits)));
    switch (g.below(6)) { case 0: case 1: case 2: v.push_back(x); ref.push_back(x); break; case 3: if (!v.empty()) { v.pop_back(); ref.pop_back(); } break; case 4: { const size_t k = g.below(50); v.insert(v.begin() + long(v.size() / 2), k, x); ref.insert(ref.begin() + long(ref.size() / 2), k, x); } break; default: { hwy::AlignedVector<T> w(v); w.shrink_to_fit(); v.swap(w); } }
    R.Check(v.empty() || Aligned(v.data()), "AlignedVector/alignment", "size %zu", v.size());
    R.Check(v.size() == ref.size() && (v.empty() || memcmp(v.data(), ref.data(), v.size() * sizeof(T)) == 0), "AlignedVector/contents", "size %zu", v.size());
    if (v.size() > 3000) { v.clear(); ref.clear(); }
  }
  // Span
  std::vector<T> back(37); hwy::Span<T> sp(back.data(), back.size());
  R.Check(sp.size() == 37 && sp.data() == back.data() && sp.begin() == back.data() && sp.end() == back.data() + 37 && sp.cend() == back.data() + 37 && &sp[36] == &back[36], "Span/accessors", "sizeof=%zu", sizeof(T));
}
// Requests that no allocator can satisfy: refused, or passed on with at least the requested size.
struct Refuse { uint64_t calls = 0; size_t least = ~size_t(0); static void* Alloc(void* o, size_t n) { auto& r = *static_cast<Refuse*>(o); ++r.calls; r.least = std::min(r.least, n); if (n > (size_t{1} << 30)) return nullptr; return malloc(n); } static void Free(void*, void* p) { free(p); } };
static void Huge(uint64_t seed) {
  Report& R = Rep(); Rng g(seed); const size_t kMax = std::numeric_limits<size_t>::max();
  for (int s = 0; s < 3000; ++s) {
    size_t n = g.below(3) == 0 ? kMax - g.below(64) : kMax - g.below(5000); if (g.below(4) == 0) n = kMax / 2 + g.below(10000); if (g.below(4) == 0) n = kMax / 2 + g() % (kMax / 2); if (g.below(8) == 0) n = (size_t{1} << (40 + g.below(24))) - g.below(3000);
    R.Eval(); R.See(Mix(77, n)); R.Count("unsatisfiable requests");
    for (int k = 0; k < 4; ++k) {
      Refuse r; void* p = nullptr; AbortContext() = Fmt("AllocateAligned|%zu", n);
      if (k == 0) p = hwy::AllocateAlignedBytes(n, &Refuse::Alloc, &r);
      if (k == 1) p = hwy::AllocateAligned<uint8_t>(n, &Refuse::Alloc, &Refuse::Free, &r).release();
      if (k == 2) p = hwy::AllocateAligned<uint32_t>(n / 4 + 1, &Refuse::Alloc, &Refuse::Free, &r).release();
      if (k == 3) p = hwy::AllocateAlignedBytes(n);
      AbortContext().clear();
      R.Check(p == nullptr, "unsatisfiable request/not-null", "%zu bytes, interface %d", n, k);
      R.Check(r.calls == 0 || r.least >= n, "unsatisfiable request/short", "%zu bytes, %zu asked from the allocator", n, r.least);
    }
  }
}
// Arguments that every element needs, including ones that a constructor could take away.
struct Taker { static int live; std::string s; explicit Taker(std::string t) : s(std::move(t)) { ++live; } ~Taker() { --live; } };
struct Taker2 { std::vector<int> v; std::string s; Taker2(std::vector<int> a, std::string t) : v(std::move(a)), s(std::move(t)) {} };
int Taker::live = 0;
static void Arguments(uint64_t seed) {
  Report& R = Rep(); Rng g(seed);
  for (int k = 0; k < 200; ++k) {
    const size_t n = 1 + g.below(20); const std::string want(1 + g.below(80), char('a' + k % 26)); const std::vector<int> wv(1 + g.below(9), k); R.Eval(); R.See(Mix(Mix(n, want.size()), 4242));
    { std::string give = want; auto p = (k & 1) ? hwy::MakeUniqueAlignedArray<Taker>(n, std::move(give)) : hwy::MakeUniqueAlignedArray<Taker>(n, want);
      R.Check(Taker::live == int(n), "MakeUniqueAlignedArray/constructed", "%d of %zu", Taker::live, n); for (size_t i = 0; i < n; ++i) R.Check(p[i].s == want, "MakeUniqueAlignedArray/args", "item %zu of %zu has '%s', want '%s' (%s)", i, n, p[i].s.c_str(), want.c_str(), (k & 1) ? "rvalue" : "lvalue"); }
    R.Check(Taker::live == 0, "MakeUniqueAlignedArray/destroyed", "%d left", Taker::live);
    { auto p = hwy::MakeUniqueAlignedArray<Taker2>(n, std::vector<int>(wv), std::string(want)); for (size_t i = 0; i < n; ++i) R.Check(p[i].s == want && p[i].v == wv, "MakeUniqueAlignedArray/args", "item %zu of %zu (two rvalues)", i, n); }
    { auto p = hwy::MakeUniqueAligned<Taker2>(std::vector<int>(wv), std::string(want)); R.Check(p->s == want && p->v == wv, "MakeUniqueAligned/args", "n=%d", k); }
  }
}
static void Threads(uint64_t seed, int steps) {
  Report& R = Rep(); std::mutex mu; std::vector<std::pair<uint8_t*, size_t>> shared; std::vector<std::thread> th; std::map<uintptr_t, size_t> live;
  for (int t = 0; t < 8; ++t) th.emplace_back([&, t] {
    Rng g(seed + uint64_t(t));
    for (int s = 0; s < steps; ++s) {
      const size_t n = PickSize(g); auto* p = static_cast<uint8_t*>(hwy::AllocateAlignedBytes(n)); R.Eval();
      R.Check(p && Aligned(p), "aligned/alignment", "threads n=%zu", n); memset(p, int(n & 255), n);
      std::pair<uint8_t*, size_t> q{nullptr, 0};
      { std::lock_guard<std::mutex> l(mu);
        auto it = live.lower_bound(reinterpret_cast<uintptr_t>(p));
        bool ok = it == live.end() || reinterpret_cast<uintptr_t>(p) + n <= it->first;
        if (it != live.begin()) { --it; ok &= it->first + it->second <= reinterpret_cast<uintptr_t>(p); }
        R.Check(ok, "aligned/overlap", "threads n=%zu", n);
        live[reinterpret_cast<uintptr_t>(p)] = n; shared.push_back({p, n});
        if (shared.size() > 40) { const size_t i = g.below(shared.size()); q = shared[i]; shared[i] = shared.back(); shared.pop_back(); live.erase(reinterpret_cast<uintptr_t>(q.first)); } }
      if (q.first) { for (size_t k = 0; k < q.second; k += 61) R.Check(q.first[k] == uint8_t(q.second), "aligned/contents-changed", "threads n=%zu", q.second); hwy::FreeAlignedBytes(q.first, nullptr, nullptr); }
    }
  });
  for (auto& t : th) t.join();
  for (auto& q : shared) hwy::FreeAlignedBytes(q.first, nullptr, nullptr);
}
struct S3 { uint8_t b[3]; }; struct S12 { uint32_t b[3]; }; struct S40 { uint64_t b[5]; };
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); WatchAborts(); InstallFaultHandler();
  const int m = R.thorough ? 40 : Quick(8);
  for (int i = 0; i < 20 * m; ++i) { const int sig = Guarded([&] { Raw(Mix(R.seed, uint64_t(i)), 1500); }); R.Check(sig == 0, "aligned/crash", "signal %d seed %d", sig, i); }
  for (int i = 0; i < m; ++i) {
    const uint64_t s = Mix(R.seed, uint64_t(i) + 500);
    Elements<1>(s, 300); Elements<2>(s, 300); Elements<3>(s, 300); Elements<7>(s, 300); Elements<8>(s, 300); Elements<24>(s, 300); Elements<128>(s, 300); Elements<200>(s, 300); Elements<256>(s, 200);
    Typed<uint8_t>(s, 400); Typed<uint16_t>(s, 400); Typed<float>(s, 400); Typed<double>(s, 400); Typed<S3>(s, 400); Typed<S12>(s, 400); Typed<S40>(s, 400);
    Threads(s, 3000); Arguments(s); if (!HWY_IS_DEBUG_BUILD) Huge(s);  // debug builds assert
  }
  return R.Write();
}
