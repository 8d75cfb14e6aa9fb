// P07: target detection and dynamic dispatch.
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <thread>
#include "common/aborts.h"
#include "common/report.h"
#include "common/step.h"
#include "common/watch.h"
#include "disp.h"
#include "hwy/per_target.h"
#include "hwy/targets.h"
#include <cpuid.h>
namespace vt {
Hit& TlHit() { static thread_local Hit h; return h; }
std::vector<Mod*>& Mods() { static std::vector<Mod*> v; return v; }
bool CallFromInit() { return getenv("VT_DISP_INIT") != nullptr; }
Attr RealAttr();
static const struct { int64_t bit; const char* name; } kT[] = {{HWY_AVX10_2_512, "AVX10_2_512"}, {HWY_AVX3_SPR, "AVX3_SPR"}, {HWY_AVX10_2, "AVX10_2"}, {HWY_AVX3_ZEN4, "AVX3_ZEN4"}, {HWY_AVX3_DL, "AVX3_DL"}, {HWY_AVX3, "AVX3"}, {HWY_AVX2, "AVX2"}, {HWY_SSE4, "SSE4"}, {HWY_SSSE3, "SSSE3"}, {HWY_SSE2, "SSE2"}, {HWY_EMU128, "EMU128"}, {HWY_SCALAR, "SCALAR"}};
static std::string Names(int64_t m) { std::string s; for (auto& t : kT) if (m & t.bit) s += std::string(s.empty() ? "" : "|") + t.name, m &= ~t.bit; if (m) s += Fmt("|0x%llx", (unsigned long long)m); return s.empty() ? "none" : s; }

// ------------------------------------------------------------ CPU model
struct Cpu : CpuModel {
  uint32_t max_level = 0x24, vendor = 0;  // 0 Intel, 1 AMD, 2 other
  uint32_t l1c = 0, l1d = 0, l7b = 0, l7c = 0, l7d = 0, l71a = 0, l71d = 0, ext_c = 0, l24b = 0, junk = 0;
  bool ones = false;  // what leaves past max_level return: a mix, or all bits set
  bool OsXsave() const override { return l1c >> 27 & 1; }
  void Get(uint32_t leaf, uint32_t sub, uint32_t* r) const override {
    r[0] = r[1] = r[2] = r[3] = 0;
    if (leaf < 0x80000000u && leaf > max_level) { if (vendor != 1) for (int i = 0; i < 4; ++i) r[i] = ones ? ~0u : uint32_t(Mix(junk, uint64_t(i))); return; }
    if (leaf == 0) { static const uint32_t v[3][3] = {{0x756e6547, 0x6c65746e, 0x49656e69}, {0x68747541, 0x444d4163, 0x69746e65}, {0x746e6543, 0x736c7561, 0x48727561}}; r[0] = max_level; r[1] = v[vendor][0]; r[2] = v[vendor][1]; r[3] = v[vendor][2]; }
    if (leaf == 1) { r[0] = 0x806F8; r[2] = l1c; r[3] = l1d; }
    if (leaf == 7 && sub == 0) { r[0] = l71a || l71d ? 1 : junk & 1; r[1] = l7b; r[2] = l7c; r[3] = l7d; }
    if (leaf == 7 && sub == 1) { r[0] = l71a; r[3] = l71d; }
    if (leaf == 0x24 && sub == 0) r[1] = l24b;
    if (leaf == 0x80000000u) r[0] = 0x80000008u;
    if (leaf == 0x80000001u) r[2] = ext_c;
  }
};
static Cpu Native() {
  Cpu c; uint32_t a, b, x, d; __cpuid(0, a, b, x, d); c.max_level = a; c.vendor = b == 0x68747541 ? 1 : b == 0x756e6547 ? 0 : 2;
  __cpuid(1, a, b, c.l1c, c.l1d); if (c.max_level >= 7) { __cpuid_count(7, 0, a, c.l7b, c.l7c, c.l7d); __cpuid_count(7, 1, c.l71a, b, x, c.l71d); } __cpuid(0x80000001u, a, b, c.ext_c, d); if (c.max_level >= 0x24) __cpuid_count(0x24, 0, a, c.l24b, x, d);
  if (c.l1c >> 27 & 1) { uint32_t lo, hi; __asm__ volatile(".byte 0x0f,0x01,0xd0" : "=a"(lo), "=d"(hi) : "c"(0)); c.xcr0 = lo; }
  return c;
}
// Targets a machine supports according to the documented feature clusters.
static int64_t Documented(const Cpu& c) {
  auto all = [](uint32_t v, std::initializer_list<int> bits) { for (int b : bits) if (!((v >> b) & 1)) return false; return true; };
  int64_t t = HWY_SCALAR | HWY_EMU128 | HWY_SSE2;  // 64-bit x86
  const bool l7 = c.max_level >= 7; const uint32_t l7b = l7 ? c.l7b : 0, l7c = l7 ? c.l7c : 0, l7d = l7 ? c.l7d : 0, l71a = l7 ? c.l71a : 0, l71d = l7 ? c.l71d : 0;
  const bool os = all(c.l1c, {26, 27}), ymm = os && all(c.xcr0, {1, 2}), zmm = ymm && all(c.xcr0, {5, 6, 7});
  const bool ssse3 = all(c.l1d, {25, 26}) && all(c.l1c, {0, 9}), sse4 = ssse3 && all(c.l1c, {19, 20, 1, 25});
  const bool avx2 = sse4 && all(c.l1c, {28, 29, 12}) && all(l7b, {3, 5, 8}) && all(c.ext_c, {5});
  const bool avx3 = avx2 && all(l7b, {16, 17, 28, 30, 31}), dl = avx3 && all(l7c, {1, 6, 8, 9, 10, 11, 12, 14}), bf = dl && all(l71a, {5}), spr = bf && all(l7d, {23});
  const bool a10 = avx2 && all(l71d, {19, 21}) && all(l7c, {8, 9, 10}); const uint32_t ver = a10 ? c.l24b & 255 : 0; const bool a512 = ver >= 1 && all(c.l24b, {18});
  if (ssse3) t |= HWY_SSSE3;
  if (sse4) t |= HWY_SSE4;
  if (avx2 && ymm) t |= HWY_AVX2;
  if (zmm && (avx3 || a512)) t |= HWY_AVX3;
  if (zmm && (dl || a512)) t |= HWY_AVX3_DL;
  if (zmm && (spr || a512)) t |= HWY_AVX3_SPR;
  if (zmm && bf && c.vendor == 1) t |= HWY_AVX3_ZEN4;
  if (zmm && ver >= 2) t |= HWY_AVX10_2;
  if (zmm && ver >= 2 && a512) t |= HWY_AVX10_2_512;
  return t;
}
static std::string Text(const Cpu& c) { return Fmt("max_level 0x%x vendor %u leaf1 %08x/%08x leaf7 %08x/%08x/%08x leaf7.1 %08x/%08x ext %08x leaf24 %08x xcr0 %x", c.max_level, c.vendor, c.l1c, c.l1d, c.l7b, c.l7c, c.l7d, c.l71a, c.l71d, c.ext_c, c.l24b, c.xcr0); }
static Cpu Draw(Rng& g) {
  Cpu c; c.junk = uint32_t(g()); const int p = int(g.below(9)); auto set = [](uint32_t& v, std::initializer_list<int> bits) { for (int b : bits) v |= 1u << b; };
  c.vendor = g.below(4) == 0 ? 2 : uint32_t(g.below(2)); c.max_level = p <= 1 ? uint32_t(1 + g.below(6)) : p <= 6 ? uint32_t(7 + g.below(0x20)) : 0x24;
  set(c.l1d, {25, 26}); if (p >= 1) set(c.l1c, {0, 9, 19, 20, 1, 25}); if (p >= 2) { set(c.l1c, {26, 27, 28, 29, 12}); set(c.l7b, {3, 5, 8}); set(c.ext_c, {5}); }
  if (p >= 3) set(c.l7b, {16, 17, 28, 30, 31}); if (p >= 4) { set(c.l7c, {1, 6, 8, 9, 10, 11, 12, 14}); } if (p >= 5) set(c.l71a, {5}); if (p >= 6) set(c.l7d, {23});
  if (p >= 7) { set(c.l71d, {19, 21}); c.max_level = 0x24; static const uint32_t ver[] = {0, 1, 2, 2, 3, 255}; c.l24b = ver[g.below(6)] | uint32_t(g.below(8)) << 16; if (g.below(2)) c.l24b |= 7u << 16; }
  if (p == 8 && g.below(2)) { c.l7b &= ~(1u << 16 | 1u << 17 | 1u << 28 | 1u << 30 | 1u << 31); c.l7c &= ~(1u << 1 | 1u << 6 | 1u << 11 | 1u << 12 | 1u << 14); }  // AVX10 without AVX-512 flags
  static const uint32_t x[] = {0xE7, 0xE7, 0xE7, 0xE7, 7, 7, 3, 1, 0x602E7, 0xA02E7, 0x27, 0x47, 0x87, 0x67, 0xA7, 0xC7, 0xE5, 0xE3, 0xE1}; c.xcr0 = x[g.below(19)]; if (p >= 2 && p < 3 && g.below(2)) c.xcr0 = 7;
  // Clear a few of the relevant feature bits (or rarely any bits).
  struct B { uint32_t* w; int b; }; std::vector<B> rel; for (int b : {0, 1, 9, 12, 19, 20, 25, 26, 27, 28, 29}) rel.push_back({&c.l1c, b}); for (int b : {25, 26}) rel.push_back({&c.l1d, b}); for (int b : {3, 5, 8, 16, 17, 28, 30, 31}) rel.push_back({&c.l7b, b}); for (int b : {1, 6, 8, 9, 10, 11, 12, 14}) rel.push_back({&c.l7c, b}); rel.push_back({&c.l7d, 23}); rel.push_back({&c.l71a, 5}); rel.push_back({&c.l71d, 19}); rel.push_back({&c.l71d, 21}); rel.push_back({&c.ext_c, 5}); rel.push_back({&c.l24b, 18});
  const int k = int(g.below(4)); for (int i = 0; i < k; ++i) { const B b = rel[g.below(rel.size())]; *b.w &= ~(1u << b.b); }
  if (g.below(6) == 0) { const B b = rel[g.below(rel.size())]; *b.w |= 1u << b.b; }
  // Unrelated features vary freely.
  c.l1c |= uint32_t(g()) & ~(1u << 0 | 1u << 1 | 1u << 9 | 1u << 12 | 1u << 19 | 1u << 20 | 1u << 25 | 1u << 26 | 1u << 27 | 1u << 28 | 1u << 29); c.l1d |= uint32_t(g()) & ~(3u << 25); c.l7b |= uint32_t(g()) & ~(1u << 3 | 1u << 5 | 1u << 8 | 1u << 16 | 1u << 17 | 1u << 28 | 1u << 30 | 1u << 31);
  c.l7c |= uint32_t(g()) & ~(1u << 1 | 1u << 6 | 0xFu << 8 | 1u << 12 | 1u << 14); c.l7d |= uint32_t(g()) & ~(1u << 23); c.l71a |= uint32_t(g()) & ~(1u << 5) & (p >= 5 ? ~0u : 0u); c.ext_c |= uint32_t(g()) & ~(1u << 5);
  // Firmware or hypervisors may limit the basic leaves; leaves past them carry no meaning.
  if (g.below(10) == 0) { c.max_level = uint32_t(1 + g.below(6)); if (c.vendor == 1) c.vendor = 0; c.ones = true; }
  return c;
}
// ------------------------------------------------------------ single stepping with emulated CPUID/XGETBV
// ------------------------------------------------------------ reference model
static int64_t g_native, g_lib_static;
static int64_t Fallback(const Mod& m) { return (m.targets & HWY_EMU128) ? HWY_EMU128 : (m.targets & HWY_SCALAR) ? HWY_SCALAR : m.static_target; }
static int64_t Expected(const Mod& m, int64_t supported) {
  if ((m.targets & (m.targets - 1)) == 0) return m.targets;
  for (auto& t : kT) if (t.bit != HWY_EMU128 && t.bit != HWY_SCALAR && (supported & m.targets & t.bit)) return t.bit;
  return Fallback(m);
}
struct Model {
  int64_t mock = 0, disabled = 0;
  int64_t Supported(int64_t cpu) const { const int64_t t = (mock ? mock : cpu) & ~disabled; return t ? t : g_lib_static; }
  int64_t Supported() const { return Supported(g_native); }
  std::string Str() const { return "mock " + Names(mock) + ", disabled " + Names(disabled); }
};
static int64_t DrawMask(Rng& g) {
  int64_t all = 0; for (auto& t : kT) all |= t.bit;
  switch (g.below(8)) {
    case 0: return kT[g.below(12)].bit;
    case 1: return all & ~kT[g.below(12)].bit;
    case 2: return int64_t(g());
    case 3: { const int64_t b = kT[g.below(10)].bit; return b | (b - 1); }
    case 4: { const int64_t b = kT[g.below(10)].bit; return all & ~(b - 1); }
    case 5: return g.below(3) ? all : ~int64_t(0);
    case 6: return g_native & int64_t(g());
    default: { int64_t m = 0; for (auto& t : kT) if (g.below(2)) m |= t.bit; return m; }
  }
}
static bool Runnable(const Mod& m, int64_t want) { return !m.real || (want & g_native); }
static void JudgeCall(const char* where, const Mod& m, int kind, const char* err, int64_t want, const std::string& state) {
  Report& R = Rep(); R.Eval(); const int64_t got = TlHit().target; const std::string key = std::string(where) + "/" + m.name + (m.real ? "" : Fmt("/call%d", kind));
  if (err) { R.Viol(key, std::string(err) + " (" + state + ")"); return; }
  R.Check(got == want, key, "%s ran, want %s (%s; module has %s)", Names(got).c_str(), Names(want).c_str(), state.c_str(), Names(m.targets).c_str());
}
static int Kinds(const Mod& m) { return m.real ? m.num_kinds : m.num_kinds - 1; }  // the last kind of the others is static dispatch
static void PerTarget(const char* where, int64_t want, const Mod& same, const std::string& state) {
  Report& R = Rep(); if (!(want & g_native)) return; R.Eval(5);
  const int64_t t = hwy::DispatchedTarget(); R.Check(t == want, std::string(where) + "/DispatchedTarget", "%s, want %s (%s)", Names(t).c_str(), Names(want).c_str(), state.c_str());
  const Attr a = RealAttr(); (void)same; const size_t bytes = want <= HWY_AVX3 ? 64 : want == HWY_AVX2 ? 32 : want == HWY_SCALAR ? a.bytes / 4 : 16;
  R.Check(hwy::VectorBytes() == bytes, std::string(where) + "/VectorBytes", "%zu for %s", hwy::VectorBytes(), Names(want).c_str());
  R.Check(a.target != want || (hwy::HaveFloat16() == (a.f16 != 0) && hwy::HaveFloat64() == (a.f64 != 0) && hwy::HaveInteger64() == (a.i64 != 0)), std::string(where) + "/Have*", "%d %d %d for %s", hwy::HaveFloat16(), hwy::HaveFloat64(), hwy::HaveInteger64(), Names(want).c_str());
}
static const Mod* g_attr_mod;
static void Static() {
  Report& R = Rep();
  for (auto& t : kT) { R.Eval(); R.Check(!strcmp(hwy::TargetName(t.bit), t.name), "TargetName", "%s for %s", hwy::TargetName(t.bit), t.name); }
  int64_t prev = 0; for (auto& t : kT) { R.Check(t.bit > prev, "order of targets", "%s is not numerically after the better targets", t.name); prev = t.bit; }
  for (Mod* m : Mods()) { R.Eval(); R.Check((m->targets & m->static_target) && !(m->static_target & (m->static_target - 1)), std::string("HWY_TARGETS/") + m->name, "targets %s, static %s", Names(m->targets).c_str(), Names(m->static_target).c_str()); if (!m->real) { const char* e = m->call(m->num_kinds - 1, 5); JudgeCall("static dispatch", *m, 13, e, m->static_target, ""); } }
}
static void Histories(uint64_t seed, double scale) {
  Report& R = Rep(); Rng g(seed * 977 + 7); std::unordered_set<uint64_t> see; const int rounds = int(8000 * scale) + 20;
  hwy::DisableTargets(0); hwy::SetSupportedTargetsForTest(0);
  for (int round = 0; round < rounds; ++round) {
    Model m; hwy::SetSupportedTargetsForTest(0); hwy::DisableTargets(0); hwy::GetChosenTarget().DeInit();
    std::vector<int64_t> chosen; bool manual = false; std::vector<std::pair<const Mod*, const void*>> saved; uint64_t h = 1;
    for (int op = 0; op < 30; ++op) {
      const std::string st = m.Str(); const int what = int(g.below(14)); const Mod& mod = *Mods()[g.below(Mods().size())];
      auto settle = [&](int64_t ran_from) { chosen.assign(1, ran_from); };
      auto judge = [&](const char* where, int kind, const char* err) {  // the target must follow from one of the possible chosen masks
        int64_t want = Expected(mod, chosen[0]); for (int64_t c : chosen) if (Expected(mod, c) == TlHit().target) want = TlHit().target;
        JudgeCall(where, mod, kind, err, want, st);
      };
      if (what == 0) { m.disabled = g.below(4) ? DrawMask(g) : 0; hwy::DisableTargets(m.disabled); chosen.clear(); manual = false; R.Check(!hwy::GetChosenTarget().IsInitialized(), "IsInitialized", "after DisableTargets"); }
      else if (what == 1) { m.mock = g.below(3) ? DrawMask(g) : 0; hwy::SetSupportedTargetsForTest(m.mock); chosen.clear(); manual = false; R.Check(!hwy::GetChosenTarget().IsInitialized(), "IsInitialized", "after SetSupportedTargetsForTest"); }
      else if (what == 2) { const int64_t s = hwy::SupportedTargets(); R.Eval(); R.Check(s == m.Supported(), "SupportedTargets", "%s, want %s (%s)", Names(s).c_str(), Names(m.Supported()).c_str(), st.c_str()); if (manual) chosen.push_back(s); }
      else if (what == 3) {
        const auto v = mod.generated(); int64_t x = 0; bool asc = true; for (size_t i = 0; i < v.size(); ++i) { x |= v[i]; asc &= v[i] && !(v[i] & (v[i] - 1)) && (i == 0 || uint64_t(v[i]) > uint64_t(v[i - 1])); }
        R.Eval(); R.Check(asc && x == (m.Supported() & mod.targets), "SupportedAndGeneratedTargets", "%s, want %s (%s)", Names(x).c_str(), Names(m.Supported() & mod.targets).c_str(), st.c_str()); if (manual) chosen.push_back(m.Supported());
      }
      else if (what == 4) { const int64_t s = mod.supported(); R.Eval(); R.Check(s == ((mod.targets & (mod.targets - 1)) ? m.Supported() : mod.targets), "HWY_SUPPORTED_TARGETS", "%s (%s)", Names(s).c_str(), st.c_str()); if (manual) chosen.push_back(m.Supported()); }
      else if (what == 5 && g.below(3) == 0) { hwy::GetChosenTarget().DeInit(); chosen.clear(); manual = false; R.Eval(); R.Check(!hwy::GetChosenTarget().IsInitialized(), "IsInitialized", "after DeInit"); }
      else if (what == 6 && g.below(3) == 0) { const int64_t x = DrawMask(g); hwy::GetChosenTarget().Update(x); settle(x); manual = true; R.Eval(); R.Check(hwy::GetChosenTarget().IsInitialized(), "IsInitialized", "after Update"); }
      else if (what == 7) {  // keep a pointer for later
        if (mod.real) continue; saved.emplace_back(&mod, mod.pointer()); if (saved.size() > 4) saved.erase(saved.begin());
      }
      else if (what == 8 && !saved.empty() && !manual) {  // call it: a version runs as is, the first-call entry picks the current target
        const auto s = saved[g.below(saved.size())]; int64_t own = 0; for (auto& t : kT) if (s.first->version(t.bit) == s.second) own = t.bit;
        const char* e = s.first->call_pointer(s.second, g()); R.Count("calls through kept pointers");
        if (own) JudgeCall("kept pointer", *s.first, 1, e, own, st); else { JudgeCall("kept first-call pointer", *s.first, 1, e, Expected(*s.first, m.Supported()), st); settle(m.Supported()); }
      }
      else if (what == 9 && !manual) { const int64_t want = Expected(*g_attr_mod, m.Supported()); if (want & g_native) { PerTarget("history", want, *g_attr_mod, st); settle(m.Supported()); } }
      else {
        if (chosen.empty()) chosen.push_back(m.Supported());
        bool ok = true; for (int64_t c : chosen) ok &= Runnable(mod, Expected(mod, c)); if (!ok) { if (chosen.size() == 1 && !hwy::GetChosenTarget().IsInitialized()) chosen.clear(); continue; }
        const int kind = int(g.below(uint64_t(Kinds(mod)))); TlHit() = Hit(); const char* e = mod.call(kind, g()); judge("dispatch", kind, e);
        if (mod.targets & (mod.targets - 1)) { R.Check(hwy::GetChosenTarget().IsInitialized(), "IsInitialized", "false after a dispatch"); } else if (!hwy::GetChosenTarget().IsInitialized()) chosen.clear();
        h = Mix(h, Mix(uint64_t(TlHit().target), HashBytes(uint64_t(kind), mod.name, strlen(mod.name))));
      }
      h = Mix(h, Mix(uint64_t(what), Mix(uint64_t(m.mock), uint64_t(m.disabled))));
    }
    see.insert(h);
  }
  R.Count("histories", uint64_t(rounds)); R.SeeAll(see); hwy::SetSupportedTargetsForTest(0); hwy::DisableTargets(0);
}
// ------------------------------------------------------------ concurrent first use
static void Races(uint64_t seed, double scale) {
  Report& R = Rep(); const int n = std::min(8, std::max(2, R.threads)), rounds = int(12000 * scale) + 50; std::atomic<int> arrived{0}; std::atomic<int> phase{0}; Model m; std::atomic<int> first_calls{0};
  std::vector<std::thread> ts; std::vector<std::unordered_set<uint64_t>> see{size_t(n)};
  auto wait = [](std::atomic<int>& a, int v) { for (int i = 0; a.load(std::memory_order_acquire) < v; ++i) if (i > 2000) sched_yield(); };
  for (int t = 0; t < n; ++t) ts.emplace_back([&, t] {
    Rng g(seed * 5501 + uint64_t(t)); 
    for (int r = 1; r <= rounds; ++r) {
      wait(phase, r);
      const int64_t sup = m.Supported(); const std::string st = m.Str(); uint64_t h = Mix(uint64_t(sup), uint64_t(t)); const int calls = 1 + int(g.below(3)); if (!hwy::GetChosenTarget().IsInitialized()) first_calls++;
      for (int i = 0; i < calls; ++i) {
        const Mod& mod = *Mods()[g.below(Mods().size())]; const int64_t want = Expected(mod, sup); const int what = int(g.below(12));
        if (what == 0) { const int64_t s = hwy::SupportedTargets(); R.Eval(); R.Check(s == sup, "concurrent SupportedTargets", "%s, want %s (%s)", Names(s).c_str(), Names(sup).c_str(), st.c_str()); continue; }
        if (what == 1) { PerTarget("concurrent", Expected(*g_attr_mod, sup), *g_attr_mod, st); continue; }
        if (!Runnable(mod, want)) continue;
        const int kind = int(g.below(uint64_t(Kinds(mod)))); const char* e = mod.call(kind, g()); JudgeCall("concurrent first use", mod, kind, e, want, st); h = Mix(h, uint64_t(TlHit().target));
      }
      if (see[size_t(t)].size() < 200000) see[size_t(t)].insert(h);
      arrived.fetch_add(1, std::memory_order_acq_rel);
    }
  });
  Rng g(seed * 71 + 3);
  for (int r = 1; r <= rounds; ++r) {
    m.mock = g.below(3) ? 0 : DrawMask(g); m.disabled = g.below(4) ? DrawMask(g) : 0; hwy::SetSupportedTargetsForTest(m.mock); hwy::DisableTargets(m.disabled);
    phase.store(r, std::memory_order_release); wait(arrived, r * n);
  }
  for (auto& t : ts) t.join(); for (auto& s : see) R.SeeAll(s);
  R.Count("rounds with concurrent first use", uint64_t(rounds)); R.Count("threads that found the chosen target unset", uint64_t(first_calls.load())); hwy::SetSupportedTargetsForTest(0); hwy::DisableTargets(0);
}
// ------------------------------------------------------------ simulated machines
static void Machines(uint64_t seed, double scale) {
  Report& R = Rep(); const int n = std::max(1, R.threads); std::vector<std::thread> ts; hwy::SetSupportedTargetsForTest(0); hwy::DisableTargets(0); const int per = int(3000 * scale) + 20;
  hwy::SetWarnFunc([](const char*, int, const char*) {});
  std::mutex mu; std::set<int64_t> seen_targets; uint64_t steps = 0, cpuids = 0;
  for (int t = 0; t < n; ++t) ts.emplace_back([&, t] {
    Rng g(seed * 811 + uint64_t(t) * 17 + 1); std::unordered_set<uint64_t> see; std::set<int64_t> mine; uint64_t st = 0, cp = 0;
    if (t == 0) for (int i = 0; i < 3; ++i) { Rng h(seed * 7 + uint64_t(i)); const Cpu c = Draw(h); R.Sample("machine " + Text(c) + " supports " + Names(Documented(c))); }
    for (int i = 0; i < per; ++i) {
      const Cpu c = Draw(g); const int64_t want = Documented(c); const int64_t got = Stepped(&c, nullptr, [] { return hwy::SupportedTargets(); });
      R.Eval(); st += tl_step.steps; cp += tl_step.cpuids; mine.insert(want); see.insert(HashBytes(5, &c, sizeof(c)));
      R.Check(tl_step.cpuids != 0, "no CPUID executed", "features must come from the CPU");
      R.Check(!tl_step.bad, "XGETBV without OSXSAVE", "%s", Text(c).c_str());
      R.Check(got == want, "simulated CPU: " + (got & ~want ? "reports unsupported " + Names(got & ~want) : "misses " + Names(want & ~got)), "%s: got %s, want %s", Text(c).c_str(), Names(got).c_str(), Names(want).c_str());
    }
    std::lock_guard<std::mutex> l(mu); seen_targets.insert(mine.begin(), mine.end()); steps += st; cpuids += cp; R.SeeAll(see);
  });
  for (auto& t : ts) t.join();
  // The first dispatch on a simulated machine chooses the best version for it.
  Rng g(seed * 3 + 41); const int firsts = int(400 * scale) + 10;
  for (int i = 0; i < firsts; ++i) {
    const Cpu c = Draw(g); Model m; m.disabled = g.below(2) ? DrawMask(g) : 0; hwy::DisableTargets(m.disabled); const Mod* mod; do { mod = Mods()[g.below(Mods().size())]; } while (mod->real || (mod->targets & (mod->targets - 1)) == 0);
    const int kind = int(g.below(uint64_t(Kinds(*mod)))); const uint64_t a = g(); const char* e = Stepped(&c, nullptr, [&] { return mod->call(kind, a); });
    JudgeCall("first call on a simulated CPU", *mod, kind, e, Expected(*mod, m.Supported(Documented(c))), m.Str() + "; " + Text(c));
    const Mod* other; do { other = Mods()[g.below(Mods().size())]; } while (other->real); e = other->call(0, a); JudgeCall("later call on a simulated CPU", *other, 0, e, Expected(*other, m.Supported(Documented(c))), m.Str() + "; " + Text(c));
  }
  hwy::SetWarnFunc(nullptr); hwy::DisableTargets(0);
  R.Count("simulated machines", uint64_t(per) * uint64_t(n) + uint64_t(firsts)); R.Count("instructions stepped", steps); R.Count("emulated CPUID", cpuids); R.Max("distinct sets of supported targets", seen_targets.size());
}
// ------------------------------------------------------------ another thread looks after every instruction of a first call
struct Peer { std::atomic<uint64_t> ask{0}, done{0}; std::atomic<bool> quit{false}; std::atomic<int> what{0}; Model m; std::vector<const void*> first; uint64_t looks = 0, late = 0, calls = 0; Rng g{1}; uint64_t trail = 0; };
static Peer* g_peer;
static void EachStep(uint64_t) {
  Peer& p = *g_peer; if (p.done.load() != p.ask.load()) return;  // still busy with an earlier request
  const uint64_t t = p.ask.fetch_add(1) + 1; for (int i = 0; i < 200000 && p.done.load() < t; ++i) __builtin_ia32_pause();
  if (p.done.load() < t) p.late++;
}
static void PeerMain() {
  Peer& p = *g_peer; Report& R = Rep(); auto& mods = Mods();
  for (uint64_t t = 1;; ++t) {
    while (p.ask.load() < t) { if (p.quit.load()) return; __builtin_ia32_pause(); }
    const size_t k = p.g.below(mods.size()); const Mod& mod = *mods[k]; const int64_t want = Expected(mod, p.m.Supported());
    const void* ptr = mod.pointer(); const void* v = mod.version(want); R.Eval(); p.looks++;
    if (ptr != p.first[k] && ptr != v) { int64_t got = 0; for (auto& x : kT) if (mod.version(x.bit) == ptr) got = x.bit; R.Viol(std::string("during another thread's first call/") + mod.name, Fmt("a call would run %s, want %s (%s)", Names(got).c_str(), Names(want).c_str(), p.m.Str().c_str())); }
    p.trail = Mix(p.trail, ptr == p.first[k] && ptr != v);
    if (!mod.real && p.g.below(150) == 0) { p.calls++; const int kind = int(p.g.below(uint64_t(Kinds(mod)))); const char* e = mod.call(kind, p.g()); JudgeCall("call during another thread's first call", mod, kind, e, want, p.m.Str()); }
    p.done.store(t);
  }
}
static void Interleave(uint64_t seed, double scale) {
  Report& R = Rep(); Peer peer; g_peer = &peer; peer.g = Rng(seed + 99); hwy::SetSupportedTargetsForTest(0); hwy::DisableTargets(0); for (Mod* m : Mods()) peer.first.push_back(m->pointer());
  std::thread th(PeerMain); Rng g(seed * 13 + 5); const int rounds = int(800 * scale) + 5; uint64_t steps = 0;
  for (int i = 0; i < rounds; ++i) {
    while (peer.done.load() != peer.ask.load()) sched_yield();
    Model m; m.mock = g.below(4) ? 0 : DrawMask(g); m.disabled = g.below(5) ? DrawMask(g) : 0; peer.m = m; hwy::SetSupportedTargetsForTest(m.mock); hwy::DisableTargets(m.disabled); peer.trail = uint64_t(i % 3);
    const Mod* mod; do { mod = Mods()[g.below(Mods().size())]; } while (!Runnable(*mod, Expected(*mod, m.Supported()))); const int kind = int(g.below(uint64_t(Kinds(*mod)))); const uint64_t a = g(); const int how = int(g.below(4)); int64_t s = 0;
    const char* e = Stepped(nullptr, &EachStep, [&]() -> const char* { if (how == 0) { s = hwy::SupportedTargets(); return nullptr; } return mod->call(kind, a); });
    while (peer.done.load() != peer.ask.load()) sched_yield();
    if (i < 2) R.Sample(Fmt("%s, %s: watched %llu instructions of a first call", mod->name, m.Str().c_str(), (unsigned long long)tl_step.steps));
    if (how) JudgeCall("stepped first call", *mod, kind, e, Expected(*mod, m.Supported()), m.Str()); else R.Check(s == m.Supported(), "stepped SupportedTargets", "%s", m.Str().c_str());
    steps += tl_step.steps; R.See(Mix(peer.trail, Mix(uint64_t(m.mock), uint64_t(m.disabled))));
  }
  peer.quit = true; th.join(); hwy::SetSupportedTargetsForTest(0); hwy::DisableTargets(0);
  R.Count("first calls observed after every instruction", uint64_t(rounds)); R.Count("observations by another thread", peer.looks); R.Count("calls by another thread", peer.calls); R.Count("observations skipped because the other thread was blocked", peer.late);
}
// ------------------------------------------------------------ fresh processes
static std::string Child(const char* var, const char* val) {
  int fd[2]; if (pipe(fd)) return ""; fflush(stdout); const pid_t pid = fork();
  if (pid == 0) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); setenv(var, val, 1); execl("/proc/self/exe", "disp", "--child", "1", nullptr); _exit(99); }
  close(fd[1]); std::string s; char b[512]; ssize_t n; while ((n = read(fd[0], b, sizeof(b))) > 0) s.append(b, size_t(n)); close(fd[0]); int st = 0; waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) s += Fmt("exit status %x", st); return s;
}
static int ChildMain() {  // prints what ran
  if (CallFromInit()) { for (Mod* m : Mods()) printf("%s %d %lld\n", m->name, m->init_hit.calls, (long long)m->init_hit.target); }
  if (const char* f = getenv("VT_DISP_FIRST")) {
    int mi = 0, kind = 0; sscanf(f, "%d:%d", &mi, &kind); std::vector<Mod*> v = Mods();
    if (mi < 0) { long long r[5]; r[0] = 0; switch (kind) { case 0: r[0] = hwy::VectorBytes(); break; case 1: r[0] = hwy::DispatchedTarget(); break; case 2: r[0] = hwy::HaveFloat64(); break; case 3: r[0] = hwy::SupportedTargets(); break; case 4: r[0] = hwy::GetChosenTarget().IsInitialized(); break; } printf("%lld\n", r[0]); return 0; }
    const char* e = v[size_t(mi)]->call(kind, 12345); printf("%s %lld %s\n", v[size_t(mi)]->name, (long long)TlHit().target, e ? e : "ok");
  }
  return 0;
}
static void Fresh(uint64_t seed, double scale) {
  Report& R = Rep(); Rng g(seed * 29 + 11);
  for (int rep = 0; rep < 2; ++rep) {
    const std::string s = Child("VT_DISP_INIT", "1"); size_t found = 0;
    for (Mod* m : Mods()) { const std::string want = Fmt("%s 1 %lld\n", m->name, (long long)Expected(*m, g_native)); R.Eval(); if (R.Check(s.find(want) != std::string::npos, std::string("call from a static initializer/") + m->name, "want '%s', got '%s'", want.c_str(), s.c_str())) found++; }
    R.Count("modules called during static initialization", found);
  }
  const int n = int(200 * scale) + 5;
  for (int i = 0; i < n; ++i) {
    const size_t mi = g.below(Mods().size()); const Mod& m = *Mods()[mi]; const int kind = int(g.below(uint64_t(Kinds(m)))); const std::string s = Child("VT_DISP_FIRST", Fmt("%zu:%d", mi, kind).c_str());
    const std::string want = Fmt("%s %lld ok\n", m.name, (long long)Expected(m, g_native)); R.Eval(); R.Check(s == want, Fmt("first call of a process/%s/call%d", m.name, kind), "'%s', want '%s'", s.c_str(), want.c_str()); R.See(Mix(mi, uint64_t(kind)));
  }
  const int64_t want = Expected(*g_attr_mod, g_native); const long long e[5] = {want <= HWY_AVX3 ? 64 : want == HWY_AVX2 ? 32 : 16, want, 1, g_native, 0};
  for (int k = 0; k < 5; ++k) { const std::string s = Child("VT_DISP_FIRST", Fmt("-1:%d", k).c_str()); R.Eval(); R.Check(atoll(s.c_str()) == e[k], Fmt("first call of a process/query%d", k), "'%s', want %lld", s.c_str(), e[k]); }
  R.Count("fresh processes", uint64_t(n) + 7);
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; if (argc > 1 && !strcmp(argv[1], "--child")) return ChildMain();
  Report& R = Rep(); R.Parse(argc, argv); WatchAborts(); const char* sc = getenv("VT_SCALE"); const double scale = (R.thorough ? 20 : 1) * (sc ? atof(sc) : 1);
  g_native = Documented(Native()); for (Mod* m : Mods()) { if (!strcmp(m->name, "lib")) g_lib_static = m->static_target; if (!strcmp(m->name, "real_all")) g_attr_mod = m; }
  if (!g_lib_static || !g_attr_mod) { fprintf(stderr, "modules missing\n"); return 2; }
  for (auto& t : kT) (g_native & t.bit ? R.targets : R.skipped).insert(t.name);
  if (R.Want("fresh")) Fresh(R.seed, scale);
  Static(); const int64_t s = hwy::SupportedTargets(); R.Eval(); R.Check(s == g_native, "SupportedTargets of this machine", "%s, want %s", Names(s).c_str(), Names(g_native).c_str());
  if (R.Want("histories")) Histories(R.seed, scale);
  if (R.Want("races")) Races(R.seed, scale);
  InstallTrap();
  if (R.Want("machines")) Machines(R.seed, scale);
  if (R.Want("interleave")) Interleave(R.seed, scale);
  for (Mod* m : Mods()) if (R.Want("fresh") ) R.Sample(Fmt("module %s: generated %s, static %s, runs %s here", m->name, Names(m->targets).c_str(), Names(m->static_target).c_str(), Names(Expected(*m, g_native)).c_str()));
  return R.Write();
}
