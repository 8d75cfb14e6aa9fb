// Independent conversions between 16-bit float formats and double.
#ifndef VERIF_FP_H_
#define VERIF_FP_H_
#include <math.h>
#include <stdint.h>
#include <string.h>
namespace vt {
inline double F16ToD(uint16_t h) {
  const int s = h >> 15, e = (h >> 10) & 31, m = h & 1023; double v;
  if (e == 31) v = m ? NAN : INFINITY; else v = e ? ldexp(double(1024 + m), e - 25) : ldexp(double(m), -24);
  return s ? -v : v;
}
inline double BF16ToD(uint16_t h) { const uint32_t u = uint32_t(h) << 16; float f; memcpy(&f, &u, 4); return double(f); }
// Nearest, ties to even, of a finite or infinite double; |man| stored mantissa bits, |emin| exponent of the smallest normal, |emax| of the largest.
inline uint16_t DToSmall(double d, int man, int ebits) {
  const int bias = (1 << (ebits - 1)) - 1, emin = 1 - bias; const uint16_t sign = uint16_t(signbit(d) ? 0x8000 : 0); const uint16_t inf = uint16_t(((1 << ebits) - 1) << man);
  if (isnan(d)) return uint16_t(sign | inf | (1 << (man - 1)));
  d = fabs(d); if (isinf(d)) return uint16_t(sign | inf); if (d == 0) return sign;
  int e; frexp(d, &e); e -= 1; if (e < emin) e = emin;
  const double q = rint(ldexp(d, man - e));  // default rounding mode: nearest, ties to even; exact scaling
  const uint64_t m = uint64_t(q); uint64_t bits;
  if (m < (1ull << man)) bits = m;  // subnormal
  else bits = (uint64_t(e + bias) << man) + (m - (1ull << man));  // a carry moves into the exponent
  if (bits >= inf) bits = inf;
  return uint16_t(sign | bits);
}
inline uint16_t DToF16(double d) { return DToSmall(d, 10, 5); }
inline uint16_t DToBF16(double d) { return DToSmall(d, 7, 8); }
}  // namespace vt
#endif
