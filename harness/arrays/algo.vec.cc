#include "hwy/highway.h"
#include "hwy/contrib/algo/copy-inl.h"
#include "hwy/contrib/algo/find-inl.h"
#include "hwy/contrib/algo/transform-inl.h"
#include "arr.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
namespace hn = hwy::HWY_NAMESPACE;
template <class T> static T Arg(const Call& c, int i) { T t; memcpy(&t, &c.bits[i], sizeof(T)); return t; }
struct Less { template <class T> struct Of { T t; template <class D, class V> HWY_INLINE hn::Mask<D> operator()(D d, V v) const { return hn::Lt(v, hn::Set(d, t)); } }; };
struct T0 { template <class D, class V> HWY_INLINE V operator()(D, V v) const { return hn::Xor(v, hn::BitCast(D(), hn::Set(hn::RebindToUnsigned<D>(), hwy::MakeUnsigned<hn::TFromD<D>>(0x5A)))); } };
struct T1 { template <class D, class V> HWY_INLINE V operator()(D, V v, V v1) const { return hn::AndNot(v1, v); } };
struct T2 { template <class D, class V> HWY_INLINE V operator()(D, V v, V v1, V v2) const { return hn::Xor(hn::AndNot(v1, v), hn::Or(v2, v1)); } };
struct GenI { template <class D, class VU> HWY_INLINE hn::Vec<D> operator()(D d, VU v) const { return hn::BitCast(d, hn::Xor(v, hn::Set(hn::RebindToUnsigned<D>(), hwy::MakeUnsigned<hn::TFromD<D>>(0x33)))); } };
template <class T> struct Rec { T* to; mutable size_t n = 0; size_t cap; template <class D, class V> HWY_INLINE void operator()(D d, V v) const { if (n + hn::Lanes(d) <= cap) hn::StoreU(v, d, to + n); n += hn::Lanes(d); } };
template <class T, class D> struct A {
  static void Fill(Call& c) { hn::Fill(D(), Arg<T>(c, 0), c.n, static_cast<T*>(c.p[0])); }
  static void Copy(Call& c) { hn::Copy(D(), static_cast<const T*>(c.p[1]), c.n, static_cast<T*>(c.p[0])); }
  static void CopyIf(Call& c) { if constexpr (sizeof(T) != 1) { T* to = static_cast<T*>(c.p[0]); c.ret = size_t(hn::CopyIf(D(), static_cast<const T*>(c.p[1]), c.n, to, Less::Of<T>{Arg<T>(c, 0)}) - to); } }
  static void Find(Call& c) { c.ret = hn::Find(D(), Arg<T>(c, 0), static_cast<const T*>(c.p[1]), c.n); }
  static void FindIf(Call& c) { c.ret = hn::FindIf(D(), static_cast<const T*>(c.p[1]), c.n, Less::Of<T>{Arg<T>(c, 0)}); }
  static void Generate(Call& c) { hn::Generate(D(), static_cast<T*>(c.p[0]), c.n, GenI()); }
  // p[0]: log with room for m elements.
  static void Foreach(Call& c) { Rec<T> r{static_cast<T*>(c.p[0]), 0, c.m}; hn::Foreach(D(), static_cast<const T*>(c.p[1]), c.n, hn::Set(D(), Arg<T>(c, 0)), r); c.ret = r.n; }
  static void Transform(Call& c) { hn::Transform(D(), static_cast<T*>(c.p[0]), c.n, T0()); }
  static void Transform1(Call& c) { hn::Transform1(D(), static_cast<T*>(c.p[0]), c.n, static_cast<const T*>(c.p[1]), T1()); }
  static void Transform2(Call& c) { hn::Transform2(D(), static_cast<T*>(c.p[0]), c.n, static_cast<const T*>(c.p[1]), static_cast<const T*>(c.p[2]), T2()); }
  static void Replace(Call& c) { hn::Replace(D(), static_cast<T*>(c.p[0]), c.n, Arg<T>(c, 0), Arg<T>(c, 1)); }
  static void ReplaceIf(Call& c) { hn::ReplaceIf(D(), static_cast<T*>(c.p[0]), c.n, Arg<T>(c, 0), Less::Of<T>{Arg<T>(c, 1)}); }
  static void Register(int ty, bool capped) {
    const size_t L = hn::Lanes(D()); const char* t = hwy::TargetName(HWY_TARGET);
#define ADD(OP) ArrFns().push_back({#OP, t, ty, L, capped, &OP});
    ADD(Fill) ADD(Copy) ADD(Find) ADD(FindIf) ADD(Generate) ADD(Foreach) ADD(Transform) ADD(Transform1) ADD(Transform2) ADD(Replace) ADD(ReplaceIf)
    if (sizeof(T) != 1) ADD(CopyIf)
  }
};
template <class T> static void Both(int ty) { A<T, hn::ScalableTag<T>>::Register(ty, false); A<T, hn::CappedTag<T, 2>>::Register(ty, true); }
static const int kInit = [] {
  Both<uint8_t>(U8); Both<int8_t>(I8); Both<uint16_t>(U16); Both<int16_t>(I16); Both<uint32_t>(U32); Both<int32_t>(I32); Both<uint64_t>(U64); Both<int64_t>(I64); Both<float>(F32); Both<double>(F64);
  return 0;
}();
}  // namespace HWY_NAMESPACE
}  // namespace vt
HWY_AFTER_NAMESPACE();
