// A module with hand-written per-target versions, so that every version can run
// on any CPU. Compiled with different target sets and language standards.
#include <string.h>
#include "disp.h"
#include "hwy/highway.h"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define STR2(a) #a
#define STR(a) STR2(a)
namespace CAT(vmod_, MOD) {
namespace {
struct Pod { int64_t target; double d; uint64_t h; };
struct Big { uint64_t v[9]; };
inline uint64_t HashBig(const Big& b) { uint64_t h = 1; for (uint64_t x : b.v) h = vt::H(h, x); return h; }
#define DECLARE(TGT)                                                                                        \
  namespace N_##TGT {                                                                                       \
  HWY_MAYBE_UNUSED int64_t Simple(int a) { vt::Rec(0, HWY_##TGT, uint64_t(int64_t(a))); return HWY_##TGT; } \
  HWY_MAYBE_UNUSED Pod Many(int8_t a, double b, const char* c, uint64_t d, float e, Big f, int16_t g, bool h, long double i) { \
    uint64_t x = vt::H(uint64_t(a), uint64_t(b * 8)); x = vt::H(x, uint64_t(c[0])); x = vt::H(x, d); x = vt::H(x, uint64_t(e)); x = vt::H(x, HashBig(f)); x = vt::H(x, uint64_t(g)); x = vt::H(x, h); x = vt::H(x, uint64_t(i)); \
    vt::Rec(1, HWY_##TGT, x); Pod p; p.target = HWY_##TGT; p.d = b; p.h = x; return p; }                  \
  HWY_MAYBE_UNUSED void Ref(uint64_t in, uint64_t& out, uint64_t* HWY_RESTRICT p) { vt::Rec(2, HWY_##TGT, in); out = in + 1; *p += in ^ uint64_t(HWY_##TGT); } \
  HWY_MAYBE_UNUSED void None() { vt::Rec(3, HWY_##TGT, 0); }                                               \
  template <typename T> int64_t One(T t) { vt::Rec(4 + int(sizeof(T)), HWY_##TGT, uint64_t(t)); return HWY_##TGT; } \
  template <typename T> T Two(const T* t, size_t n) { T s = T(0); for (size_t i = 0; i < n; ++i) s = T(s + t[i]); vt::Rec(40 + int(sizeof(T)), HWY_##TGT, uint64_t(s)); return s; } \
  }
DECLARE(AVX10_2_512) DECLARE(AVX3_SPR) DECLARE(AVX10_2) DECLARE(AVX3_ZEN4) DECLARE(AVX3_DL) DECLARE(AVX3) DECLARE(AVX2) DECLARE(SSE4) DECLARE(SSSE3) DECLARE(SSE2) DECLARE(EMU128) DECLARE(SCALAR)
HWY_EXPORT(Simple);
HWY_EXPORT(Many);
HWY_EXPORT(Ref);
HWY_EXPORT(None);
template <typename T> int64_t CallOne(T t) { HWY_EXPORT_T(TableOne, One<T>); return HWY_DYNAMIC_DISPATCH_T(TableOne)(t); }
// Two tables in one function.
template <typename T> T CallTwo(const T* t, size_t n, bool first, int64_t* target) {
  HWY_EXPORT_T(TableA, One<T>);
  HWY_EXPORT_T(TableB, Two<T>);
  if (first) { *target = HWY_DYNAMIC_DISPATCH_T(TableA)(t[0]); return t[0]; }
  *target = 0; return HWY_DYNAMIC_DISPATCH_T(TableB)(t, n);
}
template <typename T> int64_t CallAnon(T t) { HWY_EXPORT_AND_DYNAMIC_DISPATCH_T(One<T>)(t); return vt::TlHit().target; }
const char* Judge(int fn, uint64_t args, int64_t ret) {
  const vt::Hit& h = vt::TlHit();
  if (h.calls != 1) return h.calls == 0 ? "no version ran" : "more than one version ran";
  if (h.fn != fn) return "another function ran";
  if (h.args != args) return "arguments changed";
  if (ret != h.target) return "result of another version";
  return nullptr;
}
const char* Call(int kind, uint64_t a) {
  vt::TlHit() = vt::Hit();
  switch (kind) {
    case 0: { const int64_t r = HWY_DYNAMIC_DISPATCH(Simple)(int(a)); return Judge(0, uint64_t(int64_t(int(a))), r); }
    case 1: { auto p = HWY_DYNAMIC_POINTER(Simple); const int64_t r = (*p)(int(a)); return Judge(0, uint64_t(int64_t(int(a))), r); }
    case 2: {
      Big f; for (int i = 0; i < 9; ++i) f.v[i] = a * uint64_t(i + 3); const char c[2] = {char('a' + a % 20), 0};
      const int8_t A = int8_t(a & 63); const double B = double(a & 0xFFFF) / 8; const float E = float(a & 255); const int16_t G = int16_t(a & 0x3FFF); const bool h = (a & 4) != 0; const long double I = (long double)(a & 0xFFFFFFFF);
      uint64_t x = vt::H(uint64_t(A), uint64_t(B * 8)); x = vt::H(x, uint64_t(c[0])); x = vt::H(x, a); x = vt::H(x, uint64_t(E)); x = vt::H(x, HashBig(f)); x = vt::H(x, uint64_t(G)); x = vt::H(x, h); x = vt::H(x, uint64_t(I));
      const Pod p = HWY_DYNAMIC_DISPATCH(Many)(A, B, c, a, E, f, G, h, I);
      if (p.d != B || p.h != x) return "struct result changed";
      return Judge(1, x, p.target);
    }
    case 3: { uint64_t out = 0, q = 5; HWY_DYNAMIC_DISPATCH(Ref)(a, out, &q); const int64_t t = vt::TlHit().target; if (out != a + 1 || q != 5 + (a ^ uint64_t(t))) return "reference argument not forwarded"; return Judge(2, a, t); }
    case 4: { HWY_DYNAMIC_DISPATCH(None)(); return Judge(3, 0, vt::TlHit().target); }
    case 5: return Judge(4 + 1, uint8_t(a), CallOne<uint8_t>(uint8_t(a)));
    case 6: return Judge(4 + 4, uint32_t(a), CallOne<uint32_t>(uint32_t(a)));
    case 7: return Judge(4 + 8, a >> 12, CallOne<double>(double(a >> 12)));
    case 8: { int64_t t; const uint16_t v[3] = {uint16_t(a), 2, 9}; CallTwo<uint16_t>(v, 3, true, &t); return Judge(4 + 2, v[0], t); }
    case 9: { int64_t t; const uint64_t v[3] = {a, 2, 9}; const uint64_t s = CallTwo<uint64_t>(v, 3, false, &t); if (s != a + 11) return "template result changed"; return Judge(48, a + 11, vt::TlHit().target); }
    case 10: { int64_t t; const float v[2] = {float(a & 0xFFFF), 3.0f}; const float s = CallTwo<float>(v, 2, false, &t); if (s != v[0] + 3.0f) return "template result changed"; return Judge(44, uint64_t(s), vt::TlHit().target); }
    case 11: { const int64_t t = CallAnon<int16_t>(int16_t(a & 0x7FFF)); return Judge(4 + 2, a & 0x7FFF, t); }
    case 12: { const int64_t t = CallAnon<uint64_t>(a); return Judge(4 + 8, a, t); }
    case 13: { const int64_t r = HWY_STATIC_DISPATCH(Simple)(int(a)); if (r != HWY_STATIC_TARGET) return "static dispatch ran another version"; return Judge(0, uint64_t(int64_t(int(a))), r); }
  }
  return nullptr;
}
typedef int64_t (*SimplePtr)(int);
const void* Pointer() { SimplePtr p = HWY_DYNAMIC_POINTER(Simple); const void* v; memcpy(&v, &p, sizeof(v)); return v; }
const char* CallPointer(const void* v, uint64_t a) { vt::TlHit() = vt::Hit(); SimplePtr p; memcpy(&p, &v, sizeof(p)); const int64_t r = p(int(a)); return Judge(0, uint64_t(int64_t(int(a))), r); }
const void* Version(int64_t t) {
  if (!(t & HWY_TARGETS)) return nullptr;
  SimplePtr p = nullptr;
#define V(TGT) if (t == HWY_##TGT) p = &N_##TGT::Simple;
  V(AVX10_2_512) V(AVX3_SPR) V(AVX10_2) V(AVX3_ZEN4) V(AVX3_DL) V(AVX3) V(AVX2) V(SSE4) V(SSSE3) V(SSE2) V(EMU128) V(SCALAR)
  const void* v; memcpy(&v, &p, sizeof(v)); return v;
}
std::vector<int64_t> Generated() { return hwy::SupportedAndGeneratedTargets(); }
int64_t Supported() { return HWY_SUPPORTED_TARGETS; }
vt::Mod g_mod = {STR(MOD), HWY_TARGETS, HWY_STATIC_TARGET, 14, false, &Call, &Pointer, &CallPointer, &Version, &Generated, &Supported, vt::Hit()};
struct Init {
  Init() { vt::AddMod add(&g_mod); if (vt::CallFromInit()) { for (int k : {9, 0, 2, 12}) { if (Call(k, 77)) { g_mod.init_hit = vt::TlHit(); g_mod.init_hit.calls = -1; return; } } g_mod.init_hit = vt::TlHit(); } }
} g_init;
}  // namespace
}  // namespace vmod
