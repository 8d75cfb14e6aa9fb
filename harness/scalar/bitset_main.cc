// P21: BitSet64 and BitSet4096<N> against std::set, for every kind of capacity.
#include "../common/report.h"
#include "../common/aborts.h"
#include <memory>
#include "hwy/bit_set.h"
namespace vt {
struct Slot { uint64_t before = 0x1122334455667788ull; };
template <class S> struct Boxed { uint64_t lo[4]; S s; uint64_t hi[4]; Boxed() { for (auto& v : lo) v = 0xC0FFEEull; for (auto& v : hi) v = 0xC0FFEEull; } bool Clean() const { for (auto v : lo) if (v != 0xC0FFEEull) return false; for (auto v : hi) if (v != 0xC0FFEEull) return false; return true; } };
template <class S> static void Compare(const Boxed<S>& b, const std::set<size_t>& ref, size_t cap, const std::string& name, Rng& g, const char* op) {
  Report& R = Rep(); const S& s = b.s; R.Eval();
  R.Check(b.Clean(), name + "/writes-outside", "after %s", op);
  R.Check(s.Any() == !ref.empty(), name + "/Any", "after %s size %zu", op, ref.size());
  R.Check(s.Count() == ref.size(), name + "/Count", "after %s got %zu want %zu", op, s.Count(), ref.size());
  if (!ref.empty()) R.Check(s.First() == *ref.begin(), name + "/First", "after %s got %zu want %zu", op, s.First(), *ref.begin());
  uint64_t lo = 0; for (size_t i : ref) if (i < 64) lo |= 1ull << i;
  R.Check(s.Get64() == lo, name + "/Get64", "after %s", op);
  std::vector<size_t> it; s.Foreach([&](size_t i) { it.push_back(i); });
  R.Check(it == std::vector<size_t>(ref.begin(), ref.end()), name + "/Foreach", "after %s: %zu members visited, want %zu", op, it.size(), ref.size());
  for (int k = 0; k < 24; ++k) { const size_t i = k < 4 ? (k < 2 ? size_t(k) % cap : cap - 1 - size_t(k - 2) % cap) : g.below(cap); R.Check(s.Get(i) == (ref.count(i) != 0), name + "/Get", "after %s index %zu", op, i); }
}
template <class S> static void Fuzz(const char* nm, size_t cap, uint64_t seed, int steps) {
  Report& R = Rep(); Rng g(seed); const std::string name = nm;
  auto b = std::make_unique<Boxed<S>>(); std::set<size_t> ref;
  Compare(*b, ref, cap, name, g, "construction");
  for (int i = 0; i < steps; ++i) {
    AbortContext() = name + Fmt("|capacity %zu", cap);
    // Clustered indices so that words empty and refill.
    const size_t base = g.below(cap);
    auto idx = [&] { switch (g.below(5)) { case 0: return size_t(g.below(cap)); case 1: return cap - 1 - size_t(g.below(std::min<size_t>(cap, 3))); case 2: return std::min(cap - 1, base / 64 * 64 + g.below(64)); case 3: return std::min(cap - 1, base / 64 * 64 + 63 * g.below(2)); default: return ref.empty() ? base : *std::next(ref.begin(), long(g.below(ref.size()))); } };
    const char* op = "";
    switch (g.below(6)) {
      case 0: case 1: { op = "Set"; for (uint64_t k = 1 + g.below(3); k--;) { const size_t x = idx(); b->s.Set(x); ref.insert(x); } break; }
      case 2: case 3: { op = "Clear"; for (uint64_t k = 1 + g.below(4); k--;) { const size_t x = idx(); b->s.Clear(x); ref.erase(x); } break; }
      case 4: { op = "SetNonzeroBitsFrom64"; uint64_t v = g.below(4) == 0 ? 0 : g() & (g.below(2) ? ~0ull : g()); if (cap < 64) v &= (1ull << cap) - 1; b->s.SetNonzeroBitsFrom64(v); for (size_t k = 0; k < 64; ++k) if ((v >> k) & 1) ref.insert(k); break; }
      default: { op = "clear in Foreach"; // documented: safe for func to modify the current element's word
        std::set<size_t> gone; if (g.below(3)) break; const uint64_t m = g(); S copy = b->s; copy.Foreach([&](size_t x) { if ((Mix(m, x) & 1)) { b->s.Clear(x); gone.insert(x); } }); for (size_t x : gone) ref.erase(x); break; }
    }
    Compare(*b, ref, cap, name, g, op);
    if (i % 97 == 0) { const S copy = b->s; auto b2 = std::make_unique<Boxed<S>>(); b2->s = copy; Compare(*b2, ref, cap, name, g, "copy"); }
    uint64_t h = cap; for (size_t x : ref) h = Mix(h, x); R.See(h);
    if (ref.size() > cap / 2 && g.below(20) == 0) { for (size_t x : std::set<size_t>(ref)) { b->s.Clear(x); } ref.clear(); Compare(*b, ref, cap, name, g, "clear all"); }
  }
  R.Sample(name + Fmt(" capacity %zu: %d steps, %zu members at the end", cap, steps, ref.size()));
  R.Count("capacities");
}
template <size_t N> static void Cap(uint64_t seed, int steps) { Fuzz<hwy::BitSet4096<N>>(Fmt("BitSet4096<%zu>", N).c_str(), N, seed + N, steps); }
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); WatchAborts();
  const int m = R.thorough ? 40 : Quick(8);
  Fuzz<hwy::BitSet64>("BitSet64", 64, R.seed, 4000 * m);
  const int n = 700 * m; const uint64_t s = R.seed;
  Cap<1>(s, n); Cap<2>(s, n); Cap<7>(s, n); Cap<10>(s, n); Cap<63>(s, n); Cap<64>(s, n); Cap<65>(s, n); Cap<100>(s, n); Cap<127>(s, n); Cap<128>(s, n); Cap<129>(s, n); Cap<191>(s, n);
  Cap<200>(s, n); Cap<256>(s, n); Cap<1000>(s, n); Cap<1024>(s, n); Cap<2047>(s, n); Cap<2048>(s, n); Cap<4000>(s, n); Cap<4032>(s, n); Cap<4033>(s, n); Cap<4095>(s, n); Cap<4096>(s, n);
  return R.Write();
}
