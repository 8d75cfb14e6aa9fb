#include "ref.h"
#include "reduce.list.h"
namespace vt {
// Sign of a floating-point zero result is not specified.
template <typename T> void zq(R& r, T v) { if constexpr (IsF<T>()) r.zeq<T>(v); else r.eq<T>(v); }
#define FORL(LIM, ...) for (size_t i = 0; i < (LIM); ++i) r.eq<T>(__VA_ARGS__)
ROP(SumLanes, T s = T(0); for (size_t i = 0; i < N; ++i) s = ad(s, x.a(i)); for (size_t i = 0; i < N + 1; ++i) r.eq<T>(s);)
// Any order of summation: |error| <= N eps sum|a|.
ROP(SumLanesF, double s = 0; double m = 0; for (size_t i = 0; i < N; ++i) { s += double(x.a(i)); m += fabs(double(x.a(i))); }
  const double tol = double(N) * m * double(std::numeric_limits<T>::epsilon()); for (int k = 0; k < 2; ++k) r.range<T>(T(s - tol), T(s + tol));)
ROP(MinMaxLanes, T lo = x.a(0), hi = x.a(0); for (size_t i = 0; i < N; ++i) { lo = std::min(lo, x.a(i)); hi = std::max(hi, x.a(i)); } FORL(N, lo); FORL(N, hi); r.eq<T>(lo); r.eq<T>(hi);)
ROP(MaskedReduce, T s = T(0), lo = LMax<T>(), hi = LMin<T>(); bool any = false; for (size_t i = 0; i < N; ++i) if (x.m(i)) { any = true; s = ad(s, x.a(i)); lo = std::min(lo, x.a(i)); hi = std::max(hi, x.a(i)); }
  if (any) { r.eq<T>(s); r.eq<T>(lo); r.eq<T>(hi); } else for (int k = 0; k < 3; ++k) r.any<T>();)
ROP(PairwiseAdd, FORL(N, i & 1 ? ad(x.b(i - 1), x.b(i)) : ad(x.a(i), x.a(i + 1)));)
ROP(PairwiseSub, for (size_t i = 0; i < N; ++i) zq<T>(r, i & 1 ? sb(x.b(i), x.b(i - 1)) : sb(x.a(i + 1), x.a(i)));)
#define P128(OP) const size_t L = x.BlockLanes(); for (size_t i = 0; i < N; ++i) { const size_t blk = i / L * L, j = i % L, h = L / 2; \
  const size_t p = blk + 2 * (j % h); zq<T>(r, j < h ? OP(x.a(p + 1), x.a(p)) : OP(x.b(p + 1), x.b(p))); }
ROP(PairwiseAdd128, P128(ad))
ROP(PairwiseSub128, P128(sb))
template <typename T> struct SumW { using type = typename std::conditional<std::is_signed<T>::value, i64, u64>::type; };
#define SUMS(K, TWK) for (size_t i = 0; i < N / K; ++i) { TWK s = TWK(0); for (size_t j = 0; j < K; ++j) s = TWK(s + TWK(x.a(i * K + j))); r.eq<TWK>(s); }
ROP(SumsOf2, using TW = Wide<T>; SUMS(2, TW))
ROP(SumsOf4, using TW = Wide<Wide<T>>; SUMS(4, TW))
ROP(SumsOf8, using TW = Wide<Wide<Wide<T>>>; SUMS(8, TW))
template <typename T> int AD(T a, T b) { return abs(int(a) - int(b)); }
ROP(SumsOf8AbsDiff, using TW = Wide<Wide<Wide<T>>>; for (size_t i = 0; i < N / 8; ++i) { int s = 0; for (size_t j = 0; j < 8; ++j) s += AD(x.a(i * 8 + j), x.b(i * 8 + j)); r.eq<TW>(TW(s)); })
ROP(SumsOfAdjQuadAbsDiff, using TW = Wide<T>; static const int ks[8][2] = {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}};
  for (int k = 0; k < (N >= 16 ? 8 : N >= 8 ? 4 : 1); ++k) for (size_t i = 0; i < N / 2; ++i) {
    const size_t ia = ks[k][0] * 4 + i / 8 * 16 + (i & 7), ib = ks[k][1] * 4 + i / 8 * 16;
    if (i > 0 && N < (size_t(8) << ks[k][0])) { r.any<TW>(); continue; }
    int s = 0; for (size_t j = 0; j < 4; ++j) s += AD(x.a(ia + j), x.b(ib + j)); r.eq<TW>(TW(s)); })
ROP(SumsOfShuffledQuadAbsDiff, using TW = Wide<T>; static const int ks[5][4] = {{3, 2, 1, 0}, {0, 1, 2, 3}, {1, 1, 3, 0}, {2, 0, 2, 1}, {0, 3, 0, 3}};
  for (int k = 0; k < (N >= 16 ? 5 : 1); ++k) for (size_t i = 0; i < N / 2; ++i) {
    const size_t ia = i / 4 * 8 + (i & 3), ib = i / 2 * 4;
    if (ia + 3 >= N || (N < 16 && i > 0)) { r.any<TW>(); continue; }
    int s = 0; for (size_t j = 0; j < 4; ++j) { const size_t p = ia + j, q = (p / 4) % 4; const size_t src = p / 16 * 16 + size_t(ks[k][3 - q]) * 4 + p % 4; s += AD(x.a(src), x.b(ib + j)); } r.eq<TW>(TW(s)); })
inline float bfv(bf16 v) { return FromBits<float>(u32(v.b) << 16); }
template <typename T> struct PW { using W = typename std::conditional<std::is_signed<T>::value, i32, u32>::type; static W mul(T a, T b) { return W(u32(W(a)) * u32(W(b))); } };
template <> struct PW<bf16> { using W = f32; static W mul(bf16 a, bf16 b) { return bfv(a) * bfv(b); } };
ROP(WidenMulPairwiseAdd, using P = PW<T>; using W = typename P::W; for (int k = 0; k < 2; ++k) for (size_t i = 0; i < N / 2; ++i) { const W v = ad<W>(P::mul(x.a(2 * i), x.b(2 * i)), P::mul(x.a(2 * i + 1), x.b(2 * i + 1))); zq<W>(r, k && !(x.template P<u32>(4)[i] & 1) ? W(0) : v); })
ROP(WidenMulPairwiseAddF, for (size_t i = 0; i < N / 2; ++i) { const double p = double(bfv(x.a(2 * i))) * bfv(x.b(2 * i)), q = double(bfv(x.a(2 * i + 1))) * bfv(x.b(2 * i + 1)); const double t = (fabs(p) + fabs(q)) * 0x1p-22; r.range<f32>(f32(p + q - t), f32(p + q + t)); })
ROP(SatWidenMulPairwiseAdd, for (size_t i = 0; i < N / 2; ++i) r.eq<i16>(Sat<i16>(i128(u8(x.a(2 * i))) * x.b(2 * i) + i128(u8(x.a(2 * i + 1))) * x.b(2 * i + 1)));)
ROP(SatWidenMulPairwiseAccumulate, for (size_t i = 0; i < N / 2; ++i) r.eq<i32>(Sat<i32>(i128(x.a(2 * i)) * x.b(2 * i) + i128(x.a(2 * i + 1)) * x.b(2 * i + 1) + x.template P<i32>(2)[i]));)
ROP(SatWidenMulAccumFixedPoint, for (size_t i = 0; i < N; ++i) { const i128 p = i128(x.a(i)) * x.b(i) * 2, s = x.template P<i32>(2)[i]; r.alt<i32>(Sat<i32>(p + s), Sat<i32>(i128(Sat<i32>(p)) + s)); })
ROP(ReorderWidenMulAccumulate, using P = PW<T>; using W = typename P::W; W s = W(0);
  // For bf16, the addend must be a finite small number to have an exact sum.
  bool ok = true; for (size_t i = 0; i < N / 2; ++i) { const W c = x.template P<W>(2)[i]; if (IsF<W>() && !(fabs(double(c)) < 1E6 && double(c) == trunc(double(c)))) ok = false; else s = ad<W>(s, c); }
  for (size_t i = 0; i < N; ++i) s = ad<W>(s, P::mul(x.a(i), x.b(i)));
  if (ok) zq<W>(r, s); else r.any<W>();
  for (size_t i = 0; i < N / 2; ++i) zq<W>(r, ad<W>(P::mul(x.a(2 * i), x.b(2 * i)), P::mul(x.a(2 * i + 1), x.b(2 * i + 1))));
  W t = W(0); for (size_t i = 0; i < N / 2; ++i) { W v = W(0); for (size_t j = 2 * i; j < 2 * i + 2; ++j) { v = ad<W>(v, P::mul(x.a(j), x.b(j))); v = ad<W>(v, P::mul(x.b(j), x.e(j))); } zq<W>(r, v); t = ad<W>(t, v); }
  zq<W>(r, t);)
ROP(ScProducts, using P = PW<T>; using W = typename P::W; zq<W>(r, P::mul(x.a(0), x.b(0)));)
ROP(ScReorder, using P = PW<T>; using W = typename P::W; W s = P::mul(x.a(0), x.b(0)); if (!IsF<W>()) s = ad<W>(s, x.template P<W>(2)[0]); zq<W>(r, s); s = ad<W>(s, P::mul(x.b(0), x.e(0))); zq<W>(r, s); s = ad<W>(s, P::mul(x.a(0), x.e(0))); zq<W>(r, s);)
ROP(ScSatProduct, r.eq<i16>(i16(int(u8(x.a(0))) * x.b(0)));)
ROP(ScSums8, using TW = Wide<Wide<Wide<T>>>; r.eq<TW>(TW(x.a(0)));)
ROP(ScSums2, using TW = Wide<T>; r.eq<TW>(TW(x.a(0)));)
template <typename TQ, typename A, typename B> TQ Quad(const A* a, const B* b, TQ s) { i128 v = s; for (int j = 0; j < 4; ++j) v += i128(a[j]) * b[j]; return TQ(UOf<TQ>(u128(v))); }
ROP(SumOfMulQuad, using TQ = Wide<Wide<T>>; for (size_t i = 0; i < N / 4; ++i) r.eq<TQ>(Quad<TQ>(x.template P<T>(0) + 4 * i, x.template P<T>(1) + 4 * i, x.template P<TQ>(2)[i]));)
ROP(SumOfMulQuadUI, for (size_t i = 0; i < N / 4; ++i) r.eq<i32>(Quad<i32>(x.template P<u8>(0) + 4 * i, x.template P<T>(1) + 4 * i, x.template P<i32>(2)[i]));)
ROP(WidenMulAccumulate, using TW = Wide<T>; for (size_t i = 0; i < N; ++i) r.eq<TW>(TW(UOf<TW>(u128(i128(x.a(i)) * x.b(i) + x.template P<TW>(2)[i]))));)
ROP(MulEvenOddAdd, for (size_t o = 0; o < 2; ++o) for (size_t i = 0; i < N / 2; ++i) zq<f32>(r, bfv(x.a(2 * i + o)) * bfv(x.b(2 * i + o)) + f32(x.template P<u32>(2)[i] & 0xFF));)
// AES, computed from the field definition.
u8 xt(u8 a) { return u8((a << 1) ^ (a & 0x80 ? 0x1B : 0)); }
u8 gm(u8 a, u8 b) { u8 p = 0; while (b) { if (b & 1) p ^= a; a = xt(a); b >>= 1; } return p; }
struct Sbox { u8 s[256], inv[256]; Sbox() { for (int i = 0; i < 256; ++i) { u8 v = 0; for (int j = 1; j < 256 && i; ++j) if (gm(u8(i), u8(j)) == 1) v = u8(j);
    u8 o = 0x63; for (int k = 0; k < 5; ++k) o ^= u8((v << k) | (v >> (8 - k))); s[i] = o; inv[o] = u8(i); } } };
const Sbox& SB() { static Sbox b; return b; }
void MixCol(u8* p, const u8* k) { u8 o[4]; for (int i = 0; i < 4; ++i) { o[i] = 0; for (int j = 0; j < 4; ++j) o[i] ^= gm(p[j], k[(j - i + 4) & 3]); } memcpy(p, o, 4); }
ROP(AES, static const u8 kF[4] = {2, 3, 1, 1}, kI[4] = {14, 11, 13, 9}; const Sbox& sb = SB();
  for (int mode = 0; mode < 9; ++mode) for (size_t b = 0; b < N; b += 16) { u8 s[16], o[16]; memcpy(s, x.in[0] + b, 16); const u8* key = x.in[1] + b;
    if (mode < 2) { for (int i = 0; i < 16; ++i) o[i] = sb.s[s[(i + 4 * (i & 3)) & 15]]; if (mode == 0) for (int c = 0; c < 4; ++c) MixCol(o + 4 * c, kF); for (int i = 0; i < 16; ++i) o[i] ^= key[i]; }
    else if (mode < 4) { for (int i = 0; i < 16; ++i) o[i] = sb.inv[s[(i - 4 * (i & 3)) & 15]]; if (mode == 2) for (int c = 0; c < 4; ++c) MixCol(o + 4 * c, kI); for (int i = 0; i < 16; ++i) o[i] ^= key[i]; }
    else if (mode == 4) { memcpy(o, s, 16); for (int c = 0; c < 4; ++c) MixCol(o + 4 * c, kI); }
    else { static const int t[16] = {4, 5, 6, 7, 5, 6, 7, 4, 12, 13, 14, 15, 13, 14, 15, 12}; static const u8 rc[4] = {0, 1, 0x36, 0xFF}; for (int i = 0; i < 16; ++i) o[i] = u8(sb.s[s[t[i]]] ^ (i == 4 || i == 12 ? rc[mode - 5] : 0)); }
    for (int i = 0; i < 16; ++i) r.eq<u8>(o[i]); })
u128 Clm(u64 a, u64 b) { u128 p = 0; for (int i = 0; i < 64; ++i) if ((b >> i) & 1) p ^= u128(a) << i; return p; }
ROP(CLMul, for (int k = 0; k < 3; ++k) for (size_t i = 0; i < N; i += 2) { const u128 p = Clm(x.a(i + (k == 1)), x.b(i + (k >= 1))); r.eq<u64>(u64(p)); r.eq<u64>(u64(p >> 64)); })
struct RegisterRefs { RegisterRefs() { GROUP_LIST(REFX) } } g_refs;
}  // namespace vt
