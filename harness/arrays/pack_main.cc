// P17: pack then unpack for every bit width.
#include "../common/cpu.h"
#include "../common/report.h"
#include "../common/watch.h"
#include "arr.h"
#include "buf.h"
#include "elem.h"
namespace vt {
std::vector<ArrFn>& ArrFns() { static auto* v = new std::vector<ArrFn>; return *v; }
static void RunFn(const ArrFn& f, uint64_t seed, Buf* B) {
  Report& R = Rep(); const size_t S = TySize(f.ty), bits = size_t(f.arg), W = 8 * S, n = W * f.lanes, pn = bits * f.lanes; const bool fr = f.ty2 != 0;
  Rng g(HashBytes(seed, f.op, strlen(f.op)) + bits * 131 + f.lanes * 7 + size_t(fr)); std::unordered_set<uint64_t> seen; uint64_t ev = 0;
  Watched w("%s|%zu %s", f.op, bits, f.target);
  const uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1, all = W == 64 ? ~0ull : (1ull << W) - 1;
  const std::string key = Fmt("%s/%zu%s/%s%s", f.op, bits, fr ? "/reference" : "", f.target, f.capped ? "/capped" : "");
  std::vector<uint64_t> v(n);
  auto one = [&](bool end, size_t off, uint64_t ref, const char* what) {
    uint8_t* raw = B[0].Place(n * S, end, off * S); uint8_t* packed = B[1].Place(pn * S, end, ((off * 3 + 1) % 5) * S); uint8_t* back = B[2].Place(n * S, end, off * S);
    for (size_t i = 0; i < n; ++i) PutEl(f.ty, raw, i, int64_t(v[i] + ref));
    std::vector<uint8_t> copy(raw, raw + n * S); memset(packed, int(g.below(256)), pn * S); memset(back, int(g.below(256)), n * S);
    Call c; c.p[0] = packed; c.p[1] = raw; c.m = 0; c.bits[0] = ref;
    int sig = Guarded([&] { f.fn(c); }); ++ev;
    const std::string d = Fmt("%s, %s offset %zu", what, end ? "end" : "begin", off);
    if (!R.Check(sig == 0, key + "/pack-fault", "%s: signal %d at byte %td relative to packed, %td raw", d.c_str(), sig, static_cast<uint8_t*>(tl_addr) - packed, static_cast<uint8_t*>(tl_addr) - raw)) return;
    R.Check(B[1].Clean() && B[0].Clean() && !memcmp(raw, copy.data(), n * S), key + "/pack-writes-outside", "%s", d.c_str());
    std::vector<uint8_t> pcopy(packed, packed + pn * S);
    c.p[0] = back; c.p[1] = packed; c.m = 1; sig = Guarded([&] { f.fn(c); });
    if (!R.Check(sig == 0, key + "/unpack-fault", "%s: signal %d at byte %td relative to raw, %td packed", d.c_str(), sig, static_cast<uint8_t*>(tl_addr) - back, static_cast<uint8_t*>(tl_addr) - packed)) return;
    R.Check(B[2].Clean() && B[1].Clean() && !memcmp(packed, pcopy.data(), pn * S), key + "/unpack-writes-outside", "%s", d.c_str());
    if (memcmp(back, copy.data(), n * S)) {
      size_t i = 0; while (!memcmp(back + i * S, &copy[i * S], S)) ++i; uint64_t a = 0, b = 0; memcpy(&a, &copy[i * S], S); memcpy(&b, back + i * S, S);
      R.Viol(key + "/round-trip", d + Fmt(": value %zu of %zu was 0x%llx, unpacked 0x%llx", i, n, (unsigned long long)a, (unsigned long long)b));
    }
    if (seen.size() < 5000) seen.insert(HashBytes(HashBytes(bits, key.data(), key.size()), packed, pn * S));
  };
  auto rref = [&]() -> uint64_t { if (!fr) return 0; return (g.below(3) ? g() : all - g.below(3)) & all; };
  // The frame of reference must leave raw - reference in range; raw may wrap around, which Sub and Add undo.
  const int reps = R.thorough ? 200 : Quick(24);
  for (int r = 0; r < reps; ++r) {
    const int style = int(g.below(4)); for (auto& x : v) x = (style == 0 ? g() : style == 1 ? (g.below(2) ? ~0ull : 0) : style == 2 ? ~(1ull << g.below(bits)) : g() & g() & g()) & mask;
    one(g.below(2), g.below(3) ? 0 : 1 + g.below(6), rref(), "random values");
  }
  for (auto& x : v) x = mask; one(true, 0, rref(), "all ones");
  for (auto& x : v) x = 0; one(false, 0, rref(), "all zeros");
  // One value all ones, then one value with a single bit.
  const size_t step = 1;
  for (size_t i = g.below(step); i < n; i += step) { for (auto& x : v) x = 0; v[i] = mask; one(i & 1, 0, 0, "one value all ones"); for (auto& x : v) x = mask; v[i] = mask & ~(1ull << g.below(bits)); one(i & 1, 0, rref(), "one bit cleared"); }
  if (R.thorough) for (size_t b = 0; b < bits; ++b) for (size_t i = 0; i < n; ++i) { for (auto& x : v) x = 0; v[i] = 1ull << b; one(i & 1, 0, rref(), "one bit set"); }
  R.SeeAll(seen); R.Eval(ev);
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); InstallFaultHandler(); StartWatchdog(60);
  std::vector<const ArrFn*> fs; for (const ArrFn& f : ArrFns()) { if (!CpuSupports(f.target)) { R.skipped.insert(f.target); continue; } R.targets.insert(f.target); fs.push_back(&f); }
  std::atomic<size_t> next{0}; std::vector<std::thread> ts;
  for (int t = 0; t < R.threads; ++t) ts.emplace_back([&] { Buf B[3] = {Buf(3), Buf(3), Buf(3)}; for (size_t i; (i = next++) < fs.size();) RunFn(*fs[i], R.seed, B); });
  for (auto& t : ts) t.join();
  R.counters["kernels"] = fs.size(); R.Sample(Fmt("%zu packers (element type x bit width x packing type x vector size x target)", fs.size()));
  return R.Write();
}
