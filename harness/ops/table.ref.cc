#include "ref.h"
#include "table.list.h"
namespace vt {
template <typename T> T fu(UOf<T> u) { return FromBits<T>(u); }
#define FORL(n, EXPR) for (size_t i = 0; i < (n); ++i) r.bits<T>(EXPR)
ROP(TableLookupBytes, const size_t n8 = N * sizeof(T), BB = std::min<size_t>(16, n8); for (size_t p = 0; p < n8; ++p) r.eq<u8>(x.in[0][p / BB * BB + x.in[1][p]]);)
ROP(TableLookupBytesOr0, const size_t n8 = N * sizeof(T), BB = std::min<size_t>(16, n8); for (size_t p = 0; p < n8; ++p) r.eq<u8>(x.in[1][p] & 0x80 ? 0 : x.in[0][p / BB * BB + x.in[1][p]]);)
ROP(ScTable, for (size_t p = 0; p < sizeof(T); ++p) r.eq<u8>(x.in[0][x.in[1][p]]);)
ROP(ScTableOr0, for (size_t p = 0; p < sizeof(T); ++p) r.eq<u8>(x.in[1][p] & 0x80 ? 0 : x.in[0][x.in[1][p]]);)
ROP(TableLookupBytesMix, for (int w = 0; w < 2; ++w) for (size_t p = 0; p < N; ++p) r.eq<u8>(x.in[0][x.in[1][p]]);)
// Blocks of indices past the end of the table: unspecified.
ROP(TableLookupBytesSizes, r.any<u8>(); r.limit_sizes = true; size_t tbs[8], nt = 0; if (N <= 16) for (size_t t = 1; t <= 64; t *= 2) tbs[nt++] = t; else { tbs[nt++] = 16; for (size_t t = N; t <= 64; t *= 2) tbs[nt++] = t; }
  for (size_t k = 0; k < nt; ++k) { const size_t tb = tbs[k]; r.size_mark(tb); const size_t m = std::min<size_t>(tb, 16) - 1;
    for (int w = 0; w < 3 + (tb >= 8 && N >= 8 ? 2 : 0); ++w) for (size_t p = 0; p < N; ++p) { const u8 ix = x.in[1][p]; const u8 v = x.in[0][(tb > 16 ? p / 16 * 16 : 0) + (ix & m)]; if (p >= 16 && tb < N) r.any<u8>(); else r.eq<u8>((w == 1 || w == 4) && (ix & 0x80) ? 0 : v); } })
template <typename T> size_t ix(In<T> x, size_t i) { return size_t(x.template P<UOf<T>>(1)[i]); }
ROP(TableLookupLanes, for (int w = 0; w < 2; ++w) FORL(N, x.a(ix(x, i)));)
ROP(TwoTablesLookupLanes, for (int w = 0; w < 2; ++w) FORL(N, ix(x, i) < N ? x.a(ix(x, i)) : x.c(ix(x, i) - N));)
ROP(Per4LaneBlockShuffle, static const u8 t2[5][4] = {{0,0,0,0},{0,0,0,1},{0,0,1,0},{0,0,1,1},{3,2,1,0}};
  static const u8 t4[][4] = {{0,0,0,0},{0,1,0,1},{0,1,2,3},{0,3,2,1},{1,0,1,0},{1,0,3,2},{1,1,0,0},{1,1,1,1},{1,1,3,3},{2,0,2,0},{2,0,3,1},{2,1,0,3},{2,2,0,0},{2,2,2,2},{2,3,0,1},
    {2,3,2,3},{3,0,2,1},{3,1,2,0},{3,1,3,1},{3,2,0,1},{3,2,1,0},{3,2,3,2},{3,3,1,1},{3,3,2,2},{3,3,3,3},{1,3,0,2}};
  if (N == 2) { for (auto& t : t2) FORL(N, x.a(t[3 - i])); } else { for (auto& t : t4) FORL(N, x.a((i & ~size_t(3)) + t[3 - (i & 3)])); })
template <typename T> T up(In<T> x, size_t i, size_t k) { return i >= k ? x.a(i - k) : fu<T>(0); }
template <typename T> T dn(In<T> x, size_t i, size_t k) { return i + k < x.N ? x.a(i + k) : fu<T>(0); }
ROP(SlideUpLanes, for (size_t k = 0; k < N; ++k) FORL(N, up(x, i, k));)
ROP(SlideDownLanes, for (size_t k = 0; k < N; ++k) FORL(N, dn(x, i, k));)
ROP(SlideConst, for (size_t k = 0; k < N; ++k) { FORL(N, up(x, i, k)); FORL(N, dn(x, i, k)); })
ROP(Slide1, FORL(N, up(x, i, 1)); FORL(N, dn(x, i, 1));)
ROP(SlideBlocks, const size_t L = 16 / sizeof(T); for (size_t k = 0; k < (N <= L ? 1 : N / L); ++k) { FORL(N, up(x, i, k * L)); FORL(N, dn(x, i, k * L)); })
// Lanes with mask==want in order, then the others. Upper lanes only checked via
// the partition flag: since targets share one reference, upper lanes are `any`;
// permutation of the upper lanes is checked by CompressBlocksNot and P08.
template <typename T> std::vector<T> part(In<T> x, bool want, size_t& n) { std::vector<T> v; for (int w = 0; w < 2; ++w) { for (size_t i = 0; i < x.N; ++i) if (x.m(i) == (want ^ (w == 1))) v.push_back(x.a(i)); if (!w) n = v.size(); } return v; }
#define PART(WANT) size_t n; auto v = part(x, WANT, n);
ROP(Compress, r.any<u8>(); PART(true) for (size_t i = 0; i < N; ++i) r.part<T>(v[i], i >= n);)
ROP(CompressNot, r.any<u8>(); PART(false) for (size_t i = 0; i < N; ++i) r.part<T>(v[i], i >= n);)
ROP(CompressBits, r.any<u8>(); PART(true) for (size_t i = 0; i < N; ++i) r.part<T>(v[i], i >= n);)
ROP(CompressBlocksNot, PART(false) for (size_t i = 0; i < N; ++i) if (N == 2) r.bits<T>(x.a(i)); else if (i < n) r.bits<T>(v[i]); else r.any<T>();)
ROP(CompressStore, PART(true) r.eq<u8>(u8(n)); for (size_t i = 0; i < 2 * N; ++i) if (i < n) r.bits<T>(v[i]); else if (i < N) r.any<T>(); else r.bits<T>(fu<T>(UOf<T>(0xA5A5A5A5A5A5A5A5ull)));)
ROP(CompressBitsStore, PART(true) r.eq<u8>(u8(n)); for (size_t i = 0; i < 2 * N; ++i) if (i < n) r.bits<T>(v[i]); else if (i < N) r.any<T>(); else r.bits<T>(fu<T>(UOf<T>(0xA5A5A5A5A5A5A5A5ull)));)
ROP(CompressBlendedStore, PART(true) r.eq<u8>(u8(n)); for (size_t i = 0; i < 2 * N; ++i) if (i < n) r.bits<T>(v[i]); else r.bits<T>(fu<T>(UOf<T>(0xA5A5A5A5A5A5A5A5ull)));)
ROP(Expand, size_t s = 0; for (size_t i = 0; i < N; ++i) r.bits<T>(x.m(i) ? x.a(s++) : fu<T>(0));)
ROP(LoadExpand, size_t s = 0; for (size_t i = 0; i < N; ++i) r.bits<T>(x.m(i) ? x.b(s++) : fu<T>(0));)
struct RegisterRefs { RegisterRefs() { GROUP_LIST(REFX) } } g_refs;
}  // namespace vt
