// Included once per TU after hwy/highway.h; target-specific helpers.
#include "core.h"
#include "lists.h"
HWY_BEFORE_NAMESPACE();
namespace vt {
namespace HWY_NAMESPACE {
using namespace hwy::HWY_NAMESPACE;
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;
using i8 = int8_t; using i16 = int16_t; using i32 = int32_t; using i64 = int64_t;
using f32 = float; using f64 = double; using f16 = hwy::float16_t; using bf16 = hwy::bfloat16_t;
enum { TY_u8 = U8, TY_u16 = U16, TY_u32 = U32, TY_u64 = U64, TY_i8 = I8, TY_i16 = I16, TY_i32 = I32,
       TY_i64 = I64, TY_f32 = F32, TY_f64 = F64, TY_f16 = F16, TY_bf16 = BF16 };

template <class D_> struct Ctx {
  using D = D_;
  using T = TFromD<D>;
  using DU = RebindToUnsigned<D>;
  using TU = TFromD<DU>;
  const uint8_t* const* in;
  uint8_t* out;
  HWY_INLINE Vec<D> At(int i) const { return LoadU(D(), reinterpret_cast<const T*>(in[i])); }
  HWY_INLINE Vec<D> A() const { return At(0); }
  HWY_INLINE Vec<D> B() const { return At(1); }
  HWY_INLINE Vec<D> C() const { return At(2); }
  HWY_INLINE Vec<D> E() const { return At(3); }
  template <class D2> HWY_INLINE Vec<D2> As(D2 d2, int i, size_t ofs = 0) const {
    return LoadU(d2, reinterpret_cast<const TFromD<D2>*>(in[i]) + ofs);
  }
  template <class D2> HWY_INLINE Mask<D2> MaskBit(D2 d2, int bit, size_t ofs = 0) const {
    const RebindToUnsigned<D2> du;
    using TU2 = TFromD<decltype(du)>;
    const auto v = LoadU(du, reinterpret_cast<const TU2*>(in[4]) + ofs);
    return RebindMask(d2, Ne(And(v, Set(du, static_cast<TU2>(1u << bit))), Zero(du)));
  }
  HWY_INLINE Mask<D> M() const { return MaskBit(D(), 0); }
  HWY_INLINE Mask<D> M2() const { return MaskBit(D(), 1); }
  template <class D2, class V> HWY_INLINE void Emit(D2 d2, V v) {
    StoreU(v, d2, reinterpret_cast<TFromD<D2>*>(out));
    out += d2.MaxBytes();
  }
  template <class V> HWY_INLINE void Emit(V v) { Emit(DFromV<V>(), v); }
  template <class D2, class MM> HWY_INLINE void EmitM(D2 d2, MM m) {
    const RebindToUnsigned<D2> du;
    Emit(du, IfThenElse(RebindMask(du, m), Set(du, 1), Zero(du)));
  }
  template <class S> HWY_INLINE void EmitS(S s) {
    memcpy(out, &s, sizeof(s));
    out += sizeof(s);
  }
};

template <class V, class D> HWY_NOINLINE size_t Wrap(const uint8_t* const* in, uint8_t* out) {
  Ctx<D> c{in, out};
  V::Run(D(), c);
  return static_cast<size_t>(c.out - out);
}

template <class V, class T, size_t N> void RegN(const char* name, int ty) {
  if constexpr (N * sizeof(T) <= HWY_MAX_BYTES && (HWY_TARGET != HWY_SCALAR || N == 1)) {
    using D = FixedTag<T, N>;
    if constexpr (V::template Ok<D>()) {
      VecCases().push_back({name, ty, N, hwy::TargetName(HWY_TARGET), &Wrap<V, D>});
    }
    if constexpr (N < 64) RegN<V, T, N * 2>(name, ty);
  }
}

template <int I, int E, class F> HWY_INLINE void ForK(F f) {
  if constexpr (I < E) {
    f(std::integral_constant<int, I>());
    ForK<I + 1, E>(f);
  }
}

#define REGX(NAME, TY, GEN) RegN<V_##NAME, TY, 1>(#NAME, TY_##TY);
// BODY uses d, c (Ctx). COND is a constexpr condition on D/T.
#define VOPC(NAME, COND, ...)                                               \
  struct V_##NAME {                                                         \
    template <class D> static constexpr bool Ok() {                         \
      using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); (void)N;     \
      constexpr size_t S = sizeof(T); (void)S;                              \
      return COND;                                                          \
    }                                                                       \
    template <class D, class CT> static HWY_INLINE void Run(D d, CT& c) {   \
      using T = TFromD<D>; constexpr size_t N = MaxLanes(D()); (void)N;     \
      constexpr size_t S = sizeof(T); (void)S;                              \
      using TU = hwy::MakeUnsigned<T>; using TI = hwy::MakeSigned<T>;       \
      const RebindToUnsigned<D> du; const RebindToSigned<D> di;             \
      (void)d; (void)du; (void)di; (void)sizeof(T); (void)sizeof(TU); (void)sizeof(TI); \
      __VA_ARGS__                                                           \
    }                                                                       \
  };
#define VOP(NAME, ...) VOPC(NAME, true, __VA_ARGS__)
// Ops not even declared on SCALAR.
#if HWY_TARGET == HWY_SCALAR
#define VOPNS(NAME, COND, ...) VOPC(NAME, false, )
#else
#define VOPNS(NAME, COND, ...) VOPC(NAME, COND, __VA_ARGS__)
#endif
// Operations which on SCALAR have their own meaning for a single lane.
#if HWY_TARGET == HWY_SCALAR
#define VOPSC(NAME, ...) VOPC(NAME, true, __VA_ARGS__)
#else
#define VOPSC(NAME, ...) VOPC(NAME, false, )
#endif
#define NS (HWY_TARGET != HWY_SCALAR)
}  // namespace HWY_NAMESPACE
}  // namespace vt
HWY_AFTER_NAMESPACE();
