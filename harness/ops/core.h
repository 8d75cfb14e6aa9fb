// Shared between the target-specific TUs, the scalar references and the driver.
// Contains no Highway code, so ODR copies are always baseline ISA.
#ifndef VERIF_OPS_CORE_H_
#define VERIF_OPS_CORE_H_
#include <math.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <string>
#include <type_traits>
#include <vector>

namespace vt {

enum Ty { U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, F16, BF16, NTY };
inline const char* TyName(int t) {
  static const char* n[] = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "f16", "bf16"};
  return n[t];
}
inline size_t TySize(int t) {
  static const size_t n[] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 2, 2};
  return n[t];
}

// Input arrays: 5 x kInBytes. in[4] is the mask array: lane-sized cells, bit0 =
// mask 1, bit1 = mask 2.
constexpr size_t kInBytes = 512;
constexpr size_t kOutBytes = 32768;
using VecFn = size_t (*)(const uint8_t* const* in, uint8_t* out);

struct VecCase {
  const char* op;
  int ty;
  size_t N;
  const char* target;
  VecFn fn;
};
std::vector<VecCase>& VecCases();

// 16-bit float stand-ins (bits only) for references.
struct RF16 { uint16_t b; };
struct RBF16 { uint16_t b; };

template <typename T> struct TyOf;
template <> struct TyOf<uint8_t> { static constexpr int v = U8; };
template <> struct TyOf<uint16_t> { static constexpr int v = U16; };
template <> struct TyOf<uint32_t> { static constexpr int v = U32; };
template <> struct TyOf<uint64_t> { static constexpr int v = U64; };
template <> struct TyOf<int8_t> { static constexpr int v = I8; };
template <> struct TyOf<int16_t> { static constexpr int v = I16; };
template <> struct TyOf<int32_t> { static constexpr int v = I32; };
template <> struct TyOf<int64_t> { static constexpr int v = I64; };
template <> struct TyOf<float> { static constexpr int v = F32; };
template <> struct TyOf<double> { static constexpr int v = F64; };
template <> struct TyOf<RF16> { static constexpr int v = F16; };
template <> struct TyOf<RBF16> { static constexpr int v = BF16; };

template <size_t S> struct USize;
template <> struct USize<1> { using T = uint8_t; };
template <> struct USize<2> { using T = uint16_t; };
template <> struct USize<4> { using T = uint32_t; };
template <> struct USize<8> { using T = uint64_t; };
template <typename T> using UOf = typename USize<sizeof(T)>::T;
template <typename T> inline UOf<T> Bits(T v) { UOf<T> u; memcpy(&u, &v, sizeof(T)); return u; }
template <typename T> inline T FromBits(UOf<T> u) { T v; memcpy(&v, &u, sizeof(T)); return v; }

// Compile-time constant operands (constant folding takes separate code paths).
constexpr double kConst[] = {0.0, -0.0, 0.5, -0.5, 0.75, 1.5, -1.5, 2.5, -2.5, 3.0, -0.75, 127.5, -128.5, 255.5, 65535.5, 1000000.5, -1000001.5,
  2147483520.0, 2147483647.0, 2147483647.5, 2147483648.0, 2147483904.0, -2147483520.0, -2147483648.0, -2147483648.5, -2147483649.0, -2147483904.0,
  4294967040.0, 4294967295.0, 4294967295.5, 4294967296.0, 4294967808.0, 9007199254740993.0, 9223371487098961920.0, 9223372036854774784.0, 9223372036854775808.0,
  -9223372036854775808.0, -9223372036854777856.0, 18446742974197923840.0, 18446744073709549568.0, 18446744073709551616.0, 1e30, -1e30, 3e38, -1e-30, 1e-42,
  INFINITY, -INFINITY, NAN, 4503599627370497.5, -4503599627370495.5, 8388609.0, -8388607.5, 0.49999997, -0.49999997, 0.49999999999999994, 7.5};
constexpr int kNumConst = int(sizeof(kConst) / sizeof(kConst[0]));
enum Mode : uint8_t { kEqF, kBits, kAny, kAlt, kRange, kPart };

// Collects the expected output elements.
struct R {
  struct E { uint8_t mode, ty; uint64_t lo, hi; };
  std::vector<E> e;
  // Output of ops whose case list depends on the target's largest vector: the
  // first output byte is that size; elements from the first mark above it are absent.
  bool limit_sizes = false;
  struct Mark { size_t size, at; };
  std::vector<Mark> marks;
  void size_mark(size_t size) { marks.push_back({size, e.size()}); }
  template <typename T> void eq(T v) {  // NaN == NaN
    const uint8_t m = std::is_floating_point<T>::value ? kEqF : kBits;
    e.push_back({m, uint8_t(TyOf<T>::v), Bits(v), 0});
  }
  template <typename T> void zeq(T v) { if (v == T(0)) alt<T>(T(0), FromBits<T>(UOf<T>(UOf<T>(1) << (sizeof(T) * 8 - 1)))); else eq<T>(v); }  // sign of zero unspecified
  template <typename T> void bits(T v) { e.push_back({kBits, uint8_t(TyOf<T>::v), Bits(v), 0}); }
  // Upper lanes of Compress: compared only if the preceding flag byte is set.
  template <typename T> void part(T v, bool upper) { e.push_back({uint8_t(upper ? kPart : kBits), uint8_t(TyOf<T>::v), Bits(v), 0}); }
  template <typename T> void any() { e.push_back({kAny, uint8_t(TyOf<T>::v), 0, 0}); }
  template <typename T> void alt(T v, T w) { e.push_back({kAlt, uint8_t(TyOf<T>::v), Bits(v), Bits(w)}); }
  // lo <= x <= hi (float compare). NaN in either bound: anything goes.
  template <typename T> void range(T lo, T hi) { e.push_back({kRange, uint8_t(TyOf<T>::v), Bits(lo), Bits(hi)}); }
};

enum Gen {
  G_ANY,     // any bit patterns, specials weighted; lanewise => exhaustive stages apply
  G_XL,      // any bit patterns, but not lanewise (no exhaustive stage)
  G_SHIFT,   // b = shift counts in [0, bits)
  G_IDX,     // b = lane indices [0, N)
  G_IDX2,    // b = lane indices [0, 2N)
  G_BIDX,    // b = bytes: indices within min(16, bytes) blocks
  G_BIDX0,   // b = bytes: as above, or >= 0x80
  G_BIT,     // b = exactly one bit
  G_SMALL,   // small integers (exact sums in any order)
  G_FMOD,    // moderately sized floats, no specials
  G_BYTE,    // values in [0,256)
  G_B64,     // b = bytes 0..63
  G_EXCL,    // masks 1 and 2 mutually exclusive
  G_POW2,    // b (as int lanes) = exponents for MulByPow2
  G_PAIRMASK,// mask1 identical for adjacent lanes
  G_KEY128,  // b equals a in upper/lower halves often
};

using RefFn = void (*)(size_t N, const uint8_t* const* in, R& r);
struct RefCase {
  const char* op;
  int ty;
  int gen;
  bool unary;
  RefFn fn;
};
std::vector<RefCase>& RefCases();

}  // namespace vt
#endif
