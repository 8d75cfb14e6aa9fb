// A module whose versions are generated by foreach_target.h and use SIMD ops.
#include <string.h>
#include "disp.h"
#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "dispatch/real.cc"
#include "hwy/foreach_target.h"
#include "hwy/highway.h"
#ifndef VT_CAT
#define VT_CAT2(a, b) a##b
#define VT_CAT(a, b) VT_CAT2(a, b)
#endif
HWY_BEFORE_NAMESPACE();
namespace VT_CAT(vreal_, MOD) {
namespace HWY_NAMESPACE {
namespace hn = hwy::HWY_NAMESPACE;
int64_t Kernel(const uint32_t* HWY_RESTRICT in, size_t n, uint32_t* HWY_RESTRICT out, vt::Attr* attr) {
  const hn::ScalableTag<uint32_t> d; const size_t N = hn::Lanes(d); size_t i = 0;
  for (; i + N <= n; i += N) hn::StoreU(hn::Add(hn::Mul(hn::LoadU(d, in + i), hn::Set(d, 3u)), hn::Iota(d, static_cast<uint32_t>(i))), d, out + i);
  for (; i < n; ++i) out[i] = in[i] * 3u + static_cast<uint32_t>(i);
  attr->target = HWY_TARGET; attr->bytes = N * sizeof(uint32_t); attr->f16 = HWY_HAVE_FLOAT16; attr->f64 = HWY_HAVE_FLOAT64; attr->i64 = HWY_HAVE_INTEGER64;
  vt::Rec(0, HWY_TARGET, n);
  return HWY_TARGET;
}
template <typename T> T SumT(const T* HWY_RESTRICT in, size_t n) {
  const hn::ScalableTag<T> d; const size_t N = hn::Lanes(d); auto s = hn::Zero(d); size_t i = 0;
  for (; i + N <= n; i += N) s = hn::Add(s, hn::LoadU(d, in + i));
  T r = hn::ReduceSum(d, s); for (; i < n; ++i) r = static_cast<T>(r + in[i]);
  vt::Rec(40 + int(sizeof(T)), HWY_TARGET, n);
  return r;
}
}  // namespace HWY_NAMESPACE
}  // namespace vreal
HWY_AFTER_NAMESPACE();
#if HWY_ONCE
#define STR2(a) #a
#define STR(a) STR2(a)
namespace VT_CAT(vreal_, MOD) {
namespace {
HWY_EXPORT(Kernel);
template <typename T> T Sum(const T* p, size_t n) { HWY_EXPORT_T(SumTable, SumT<T>); return HWY_DYNAMIC_DISPATCH_T(SumTable)(p, n); }
template <typename T> T Sum2(const T* p, size_t n, T* out) { HWY_EXPORT_T(SumTable, SumT<T>); *out = HWY_DYNAMIC_DISPATCH_T(SumTable)(p, n); return *out; }
typedef int64_t (*Ptr)(const uint32_t*, size_t, uint32_t*, vt::Attr*);
const char* CallP(Ptr p, uint64_t a) {
  vt::TlHit() = vt::Hit(); const size_t n = a % 150; uint32_t in[150], out[151]; vt::Attr at;
  for (size_t i = 0; i < n; ++i) in[i] = uint32_t(a * (i + 1)); memset(out, 0x5A, sizeof(out));
  const int64_t t = p ? p(in, n, out, &at) : HWY_DYNAMIC_DISPATCH(Kernel)(in, n, out, &at); const vt::Hit h = vt::TlHit();
  if (h.calls != 1) return h.calls ? "more than one version ran" : "no version ran";
  if (h.target != t || at.target != t) return "result of another version";
  for (size_t i = 0; i < n; ++i) if (out[i] != in[i] * 3u + uint32_t(i)) return "wrong SIMD result";
  if (out[n] != 0x5A5A5A5Au) return "wrote past the end";
  return nullptr;
}
template <typename T> const char* CallSum(uint64_t a) {
  vt::TlHit() = vt::Hit(); const size_t n = a % 99; T in[99], s = 0, t; for (size_t i = 0; i < n; ++i) { in[i] = T((a >> (i % 40)) & 63); s = T(s + in[i]); }
  if ((a & 1) ? Sum(in, n) != s : (Sum2(in, n, &t) != s || t != s)) return "wrong SIMD sum";
  const vt::Hit h = vt::TlHit(); if (h.calls != 1) return h.calls ? "more than one version ran" : "no version ran"; if (h.args != n || h.fn != 40 + int(sizeof(T))) return "arguments changed";
  return nullptr;
}
const char* Call(int kind, uint64_t a) { switch (kind) { case 0: return CallP(nullptr, a); case 1: { Ptr p = HWY_DYNAMIC_POINTER(Kernel); return CallP(p, a); } case 2: return CallSum<uint8_t>(a); case 3: return CallSum<float>(a); case 4: return CallSum<double>(a); } return nullptr; }
const void* Pointer() { Ptr p = HWY_DYNAMIC_POINTER(Kernel); const void* v; memcpy(&v, &p, sizeof(v)); return v; }
const char* CallPointer(const void* v, uint64_t a) { Ptr p; memcpy(&p, &v, sizeof(p)); return CallP(p, a); }
const void* Version(int64_t t) {
  Ptr p = nullptr;
  if (t == HWY_STATIC_TARGET) p = &HWY_STATIC_DISPATCH(Kernel);
#define V(TGT) if (t == HWY_##TGT) p = HWY_CHOOSE_##TGT(Kernel);
  V(AVX3_SPR) V(AVX3_ZEN4) V(AVX3_DL) V(AVX3) V(AVX2) V(SSE4) V(SSSE3) V(SSE2)
  if ((t == HWY_SCALAR || t == HWY_EMU128) && (HWY_TARGETS & t)) p = HWY_CHOOSE_FALLBACK(Kernel);
  const void* v; memcpy(&v, &p, sizeof(v)); return v;
}
std::vector<int64_t> Generated() { return hwy::SupportedAndGeneratedTargets(); }
int64_t Supported() { return HWY_SUPPORTED_TARGETS; }
vt::Mod g_mod = {STR(MOD), HWY_TARGETS, HWY_STATIC_TARGET, 5, true, &Call, &Pointer, &CallPointer, &Version, &Generated, &Supported, vt::Hit()};
struct Init { Init() { vt::AddMod add(&g_mod); if (vt::CallFromInit()) { if (Call(0, 77)) { g_mod.init_hit.calls = -1; return; } g_mod.init_hit = vt::TlHit(); } } } g_init;
}  // namespace
}  // namespace vreal
#ifdef VT_ATTR
namespace VT_CAT(vreal_, MOD) { vt::Attr GetAttr() { uint32_t in[1] = {1}, out[1]; vt::Attr a; HWY_DYNAMIC_DISPATCH(Kernel)(in, 1, out, &a); return a; } }
namespace vt { Attr RealAttr() { return VT_CAT(vreal_, MOD)::GetAttr(); } }
#endif
#endif  // HWY_ONCE
