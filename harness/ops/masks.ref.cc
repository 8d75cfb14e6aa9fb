#include "ref.h"
#include "masks.list.h"
namespace vt {
#define CMPR(NAME, OP) ROPL(NAME, r.eq<TU>(TU(a OP b));) ROPL(Masked##NAME, r.eq<TU>(TU(m && (a OP b)));)
CMPR(Eq, ==) CMPR(Ne, !=) CMPR(Lt, <) CMPR(Gt, >) CMPR(Le, <=) CMPR(Ge, >=)
ROP(CmpOperators, for (int w = 0; w < 6; ++w) for (size_t i = 0; i < N; ++i) { const T a = x.a(i), b = x.b(i); r.eq<TU>(TU(w == 0 ? a == b : w == 1 ? a != b : w == 2 ? a < b : w == 3 ? a > b : w == 4 ? a <= b : a >= b)); })
ROPL(IsNegative, if (IsF<T>() && (nan_(a) || a == 0)) r.alt<TU>(0, 1); else r.eq<TU>(TU(a < 0));)
ROPL(TestBit, r.eq<TU>(TU((a & b) == b));)
template <typename T> bool inf_(T a) { return !nan_(a) && std::isinf(a); }
ROPL(IsNaN, r.eq<TU>(nan_(a));)
ROPL(IsEitherNaN, r.eq<TU>(nan_(a) || nan_(b));)
ROPL(IsInf, r.eq<TU>(inf_(a));)
ROPL(IsFinite, r.eq<TU>(!nan_(a) && !inf_(a));)
ROPL(MaskedIsNaN, r.eq<TU>(m && nan_(a));)
ROP(Cmp128, for (int w = 0; w < 6; ++w) for (size_t i = 0; i < N; i += 2) { const u128 A = (u128(x.a(i + 1)) << 64) | x.a(i), B = (u128(x.b(i + 1)) << 64) | x.b(i); const u64 ah = x.a(i + 1), bh = x.b(i + 1);
  const bool v = w == 0 ? A < B : w == 1 ? ah < bh : w == 2 ? A == B : w == 3 ? ah == bh : w == 4 ? A != B : ah != bh; r.eq<u64>(v); r.eq<u64>(v); })
ROP(MinMax128, for (int w = 0; w < 4; ++w) for (size_t i = 0; i < N; i += 2) { const u128 A = (u128(x.a(i + 1)) << 64) | x.a(i), B = (u128(x.b(i + 1)) << 64) | x.b(i); const u64 ah = x.a(i + 1), bh = x.b(i + 1);
  if (w < 2) { const bool ua = w == 0 ? A < B : A > B; r.eq<u64>(ua ? x.a(i) : x.b(i)); r.eq<u64>(ua ? ah : bh); }
  else { if (ah == bh) r.alt<u64>(x.a(i), x.b(i)); else r.eq<u64>((w == 2) == (ah < bh) ? x.a(i) : x.b(i)); r.eq<u64>(w == 2 ? std::min(ah, bh) : std::max(ah, bh)); } })
ROP(FirstN, const size_t n = x.in[1][0] % (N + 2); const size_t mx = sizeof(T) == 8 ? size_t(~0ull >> 1) : (size_t(1) << (sizeof(T) * 8 - 1)) - 1;
  const size_t ns[5] = {n, N, N + n, mx, mx - n}; for (size_t k : ns) for (size_t i = 0; i < N; ++i) if (k > mx) r.any<TU>(); else r.eq<TU>(i < k);)
ROP(FirstNConst, for (size_t k = 0; k < N + 2; ++k) for (size_t i = 0; i < N; ++i) r.eq<TU>(i < k);)
ROP(MaskedSets, for (int w = 0; w < 2; ++w) for (size_t i = 0; i < N; ++i) r.eq<TU>(x.m(i) ? Bits(x.a(0)) : w ? Bits(x.b(i)) : TU(0));)
ROPL(MaskFromVec, r.eq<TU>(m);)
ROPL(VecFromMask, r.eq<TU>(m ? TU(~TU(0)) : TU(0));)
ROP(LoadMaskBits, for (size_t i = 0; i < N; ++i) r.eq<TU>((x.in[1][i / 8] >> (i % 8)) & 1);)
template <typename T> u64 mbits(In<T> x, int which = 0) { u64 b = 0; for (size_t i = 0; i < x.N; ++i) b |= u64(which ? x.m2(i) : x.m(i)) << i; return b; }
ROP(StoreMaskBits, const size_t nb = (N + 7) / 8; r.eq<u8>(u8(nb)); const u64 b = mbits(x); for (size_t i = 0; i < nb; ++i) r.eq<u8>(u8(b >> (8 * i)));)
ROP(BitsFromMask, r.eq<u64>(mbits(x));)
ROP(Dup128MaskFromMaskBits, const unsigned bits = x.in[1][0] | (unsigned(x.in[1][1]) << 8); for (size_t i = 0; i < N; ++i) r.eq<TU>((bits >> (i & (16 / sizeof(T) - 1))) & 1);)
ROPL(MaskFalse, r.eq<TU>(0);)
ROP(RebindMask, for (int w = 0; w < 3; ++w) for (size_t i = 0; i < N; ++i) r.eq<TU>(x.m(i));)
#define PMR(NAME, K) ROPL(NAME, r.eq<typename USize<(sizeof(T) * K <= 8 ? sizeof(T) * K : 8)>::T>(m);)
PMR(PromoteMaskTo, 2) PMR(PromoteMaskTo4, 4) PMR(PromoteMaskTo8, 8)
#define DMR(NAME, K) ROPL(NAME, r.eq<typename USize<(sizeof(T) / K >= 1 ? sizeof(T) / K : 1)>::T>(m);)
DMR(DemoteMaskTo, 2) DMR(DemoteMaskTo4, 4) DMR(DemoteMaskTo8, 8)
ROP(OrderedDemote2MasksTo, for (size_t i = 0; i < 2 * N; ++i) r.eq<typename USize<(sizeof(T) >= 2 ? sizeof(T) / 2 : 1)>::T>(x.m(i));)
ROP(LowerHalfOfMask, for (size_t i = 0; i < N / 2; ++i) r.eq<TU>(x.m(i));)
ROP(UpperHalfOfMask, for (size_t i = N / 2; i < N; ++i) r.eq<TU>(x.m(i));)
ROPL(CombineMasks, r.eq<TU>(m);)
ROP(SlideMaskUpLanes, const size_t ns[3] = {x.in[1][0] % N, N / 2, N - 1}; for (size_t w = 0; w < 3; ++w) { size_t n = ns[w]; if (n >= N) n = 0; for (size_t i = 0; i < N; ++i) r.eq<TU>(i >= n && x.m(i - n)); })
ROP(SlideMaskDownLanes, const size_t ns[3] = {x.in[1][0] % N, N / 2, N - 1}; for (size_t w = 0; w < 3; ++w) { size_t n = ns[w]; if (n >= N) n = 0; for (size_t i = 0; i < N; ++i) r.eq<TU>(i + n < N && x.m(i + n)); })
ROP(SlideMask1, for (size_t i = 0; i < N; ++i) r.eq<TU>(i >= 1 && x.m(i - 1)); for (size_t i = 0; i < N; ++i) r.eq<TU>(i + 1 < N && x.m(i + 1));)
inline i64 ff(u64 b) { return b ? __builtin_ctzll(b) : -1; }
inline i64 fl(u64 b) { return b ? 63 - __builtin_clzll(b) : -1; }
inline u64 full(size_t N) { return N == 64 ? ~0ull : (1ull << N) - 1; }
ROP(TestMask, const u64 b = mbits(x); r.eq<u8>(b == full(N)); r.eq<u8>(b == 0); r.eq<u8>(u8(__builtin_popcountll(b))); r.eq<i64>(ff(b)); r.eq<i64>(fl(b)); r.eq<i64>(ff(b)); r.eq<i64>(fl(b));)
ROPL(IfThenElse, r.eq<TU>(m ? Bits(a) : Bits(b));)
ROPL(IfThenElseZero, r.eq<TU>(m ? Bits(a) : TU(0));)
ROPL(IfThenZeroElse, r.eq<TU>(m ? TU(0) : Bits(a));)
ROPL(IfVecThenElse, r.eq<TU>(m ? Bits(a) : Bits(b));)
ROP(MaskLogic, for (int w = 0; w < 5; ++w) for (size_t i = 0; i < N; ++i) { const bool a = x.m(i), b = x.m2(i); r.eq<TU>(w == 0 ? !a : w == 1 ? a && b : w == 2 ? !a && b : w == 3 ? a || b : a != b); }
  const u64 n = ~mbits(x) & full(N); r.eq<u8>(u8(__builtin_popcountll(n))); r.eq<u8>(n == full(N)); r.eq<u8>(n == 0); r.eq<i64>(ff(n)); r.eq<i64>(fl(n)); r.eq<u64>(n); r.eq<u64>(n & mbits(x, 1));)
ROP(ExclusiveNeither, u64 v = ~(mbits(x) | mbits(x, 1)) & full(N); for (size_t i = 0; i < N; ++i) r.eq<TU>((v >> i) & 1); r.eq<u8>(u8(__builtin_popcountll(v))); r.eq<u8>(v == 0);)
ROP(SetFirst, const u64 b = mbits(x); const u64 only = b & (0 - b); const u64 before = b ? only - 1 : full(N); const u64 vs[4] = {only, before, before | only, ~before & full(N)};
  for (u64 v : vs) for (size_t i = 0; i < N; ++i) r.eq<TU>((v >> i) & 1);
  r.eq<u8>(u8(__builtin_popcountll(vs[1]))); r.eq<u8>(u8(__builtin_popcountll(vs[2]))); r.eq<u8>(u8(__builtin_popcountll(vs[3]))); r.eq<u8>(u8(__builtin_popcountll(vs[0])));)
struct RegisterRefs { RegisterRefs() { GROUP_LIST(REFX) } } g_refs;
}  // namespace vt
