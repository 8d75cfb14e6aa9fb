// Own CPU detection (independent of the code under test).
#ifndef VERIF_CPU_H_
#define VERIF_CPU_H_
#include <cpuid.h>
#include <stdint.h>
#include <string.h>
namespace vt {
inline bool CpuSupports(const char* target) {
  uint32_t a, b, c, d, b7 = 0, c7 = 0, d7 = 0, a71 = 0, x;
  if (!__get_cpuid(1, &a, &b, &c, &d)) return false;
  const uint32_t c1 = c;
  if (__get_cpuid_count(7, 0, &a, &b7, &c7, &d7)) __get_cpuid_count(7, 1, &a71, &b, &x, &d);
  uint32_t ce = 0;
  __get_cpuid(0x80000001u, &a, &b, &ce, &d);
  auto bit = [](uint32_t v, int i) { return ((v >> i) & 1) != 0; };
  uint32_t xlo = 0, xhi = 0;
  if (bit(c1, 27)) __asm__ volatile(".byte 0x0f,0x01,0xd0" : "=a"(xlo), "=d"(xhi) : "c"(0));
  const bool ymm = (xlo & 6) == 6, zmm = (xlo & 0xE6) == 0xE6;
  const bool ssse3 = bit(c1, 0) && bit(c1, 9);
  const bool sse4 = ssse3 && bit(c1, 19) && bit(c1, 20) && bit(c1, 1) && bit(c1, 25);
  const bool avx2 = sse4 && ymm && bit(c1, 28) && bit(c1, 12) && bit(c1, 29) && bit(b7, 5) && bit(b7, 3) && bit(b7, 8) && bit(ce, 5);
  const bool avx3 = avx2 && zmm && bit(b7, 16) && bit(b7, 17) && bit(b7, 28) && bit(b7, 30) && bit(b7, 31);
  const bool dl = avx3 && bit(c7, 1) && bit(c7, 6) && bit(c7, 8) && bit(c7, 9) && bit(c7, 10) && bit(c7, 11) && bit(c7, 12) && bit(c7, 14) && bit(b7, 21);
  const bool bf16 = bit(a71, 5), fp16 = bit(d7, 23);
  if (!strcmp(target, "SSE2") || !strcmp(target, "EMU128") || !strcmp(target, "SCALAR")) return true;
  if (!strcmp(target, "SSSE3")) return ssse3;
  if (!strcmp(target, "SSE4")) return sse4;
  if (!strcmp(target, "AVX2")) return avx2;
  if (!strcmp(target, "AVX3")) return avx3;
  if (!strcmp(target, "AVX3_DL")) return dl;
  if (!strcmp(target, "AVX3_ZEN4")) return dl && bf16;
  if (!strcmp(target, "AVX3_SPR")) return dl && bf16 && fp16;
  return false;
}
}  // namespace vt
#endif
