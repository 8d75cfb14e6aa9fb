// Driver: generates inputs, executes every registered vector case on every
// supported target, and checks each produced element against the scalar
// reference. Usage: ops --prop P01 --seed N --tier quick|thorough --out F [--only op/ty] [--threads n]
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include "../common/cpu.h"
#include "ref.h"

namespace vt {
std::vector<VecCase>& VecCases() { static auto* v = new std::vector<VecCase>; return *v; }
std::vector<RefCase>& RefCases() { static auto* v = new std::vector<RefCase>; return *v; }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t operator()() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return (*this)() % n; }
};
static uint64_t Hash(uint64_t h, const void* p, size_t n) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001B3ull;
  return h ^ (h >> 29);
}

// ---------------------------------------------------------------- inputs
static uint64_t SpecialInt(Rng& g, int bits) {
  const uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
  switch (g.below(10)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return mask;                    // -1 / max
    case 3: return 1ull << (bits - 1);      // min
    case 4: return mask >> 1;               // max signed
    case 5: return (1ull << g.below(bits)); // one bit
    case 6: return ((1ull << g.below(bits)) - 1) & mask;
    case 7: return ((1ull << g.below(bits)) + g.below(3) - 1) & mask;
    case 8: return (0 - g.below(4)) & mask;
    default: return ~(1ull << g.below(bits)) & mask;
  }
}
static uint64_t SpecialFloat(Rng& g, int mant, int exp) {
  const int bits = 1 + mant + exp;
  const uint64_t emax = (1ull << exp) - 1, mmask = (1ull << mant) - 1, bias = emax >> 1;
  const uint64_t sign = g.below(2) << (bits - 1);
  auto mk = [&](uint64_t e, uint64_t m) { return sign | (e << mant) | (m & mmask); };
  switch (g.below(25)) {
    case 0: return mk(0, 0);
    case 1: return mk(emax, 0);
    case 2: return mk(emax, 1ull << (mant - 1));             // qNaN
    case 3: return mk(emax, (1ull << (mant - 1)) | g());     // qNaN payload
    case 4: return mk(0, 1 + g.below(3));                    // denormal
    case 5: return mk(0, g());
    case 6: return mk(1, g.below(2));
    case 7: return mk(emax - 1, mmask - g.below(2));         // max
    case 8: return mk(bias, 0);                              // 1
    case 9: return mk(bias, g.below(2) ? 1 : mmask);
    case 10: return mk(bias - 1, g.below(3) - 1);            // 0.5 neighbours
    case 11: {                                               // k + 0.5
      const int e = int(g.below(mant));
      return mk(bias + e, (g() & ~((1ull << (mant - e)) - 1)) | (1ull << (mant - e - 1)));
    }
    case 12: {                                               // integers
      const int e = int(g.below(mant + 1));
      return mk(bias + e, g() & ~((1ull << (mant - e)) - 1));
    }
    case 13: {  // near integer type limits
      static const int lim[] = {7, 8, 15, 16, 31, 32, 63, 64};
      const int e = lim[g.below(8)];
      if (uint64_t(e) + bias >= emax) return mk(emax, 0);
      return mk(bias + e - g.below(2), g.below(2) ? g.below(3) - 1 : g());
    }
    case 14: return mk(bias + mant - 1 + g.below(3), g());   // around 2^mant
    case 15: return mk(bias + g.below(mant + 2), g());       // moderate
    case 16: return mk(bias - g.below(mant + 2), g());
    case 17: return mk(bias + g.below(8) - 4, g());
    case 18: return mk(bias + 1 + g.below(8), 0);            // power of 2
    case 19: return mk(bias - 2, mmask - g.below(2));        // just below 0.5
    case 20: {                                               // k + 0.5 +/- ulp
      const int e = int(g.below(mant));
      const uint64_t m = (g() & ~((1ull << (mant - e)) - 1)) | (1ull << (mant - e - 1));
      return mk(bias + e, m + g.below(3) - 1);
    }
    case 21: return mk(bias + (mant == 23 ? 31 : mant == 52 ? (g.below(2) ? 31 : 63) : 15), 0);  // 2^31, 2^63
    case 22: return mk(bias + g.below(mant + 12), mmask - g.below(4));  // just below a power of two
    case 23: return mk(bias + g.below(mant + 12), g.below(4));          // just above
    default: return mk(g.below(emax), g());
  }
}
static uint64_t RandLane(Rng& g, int ty, int style) {
  const int bits = int(TySize(ty)) * 8;
  const uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
  if (style == 2) style = int(g.below(2));
  if (ty == F32) return style ? SpecialFloat(g, 23, 8) : (g.below(4) ? SpecialFloat(g, 23, 8) : g() & mask);
  if (ty == F64) return style ? SpecialFloat(g, 52, 11) : (g.below(4) ? SpecialFloat(g, 52, 11) : g());
  if (ty == F16) return style ? SpecialFloat(g, 10, 5) : g() & mask;
  if (ty == BF16) return style ? SpecialFloat(g, 7, 8) : g() & mask;
  return style ? SpecialInt(g, bits) : g() & mask;
}
static void Put(uint8_t* p, size_t size, uint64_t v) { memcpy(p, &v, size); }
static uint64_t GetU(const uint8_t* p, size_t size) { uint64_t v = 0; memcpy(&v, p, size); return v; }
static bool IsFloatTy(int ty) { return ty >= F32; }
static uint64_t FromDouble(int ty, double d) {
  if (ty == F64) return Bits(d);
  if (ty == F32) return Bits(float(d));
  const float f = float(d);
  if (ty == BF16) return Bits(f) >> 16;
  // f16: exact small values only
  if (d == 0) return 0;
  int e; double m = frexp(fabs(d), &e);
  return (d < 0 ? 0x8000 : 0) | (uint64_t(e - 1 + 15) << 10) | (uint64_t(m * 2048) & 0x3FF);
}

struct Inputs {
  alignas(64) uint8_t buf[5][kInBytes];
  const uint8_t* in[5];
  Inputs() { for (int i = 0; i < 5; ++i) in[i] = buf[i]; }
};

static void Generate(Inputs& I, int gen, int ty, size_t N, uint64_t iter, Rng& g) {
  const size_t S = TySize(ty);
  const int bits = int(S) * 8;
  const size_t lanes = kInBytes / S;
  const int style = int(g.below(3));
  for (int k = 0; k < 4; ++k)
    for (size_t i = 0; i < lanes; ++i) Put(I.buf[k] + i * S, S, RandLane(g, ty, style));
  const uint64_t rel = g.below(6);
  if (gen == G_ANY || gen == G_XL || gen == G_KEY128) {
    for (size_t i = 0; i < lanes; ++i) {  // relate operands
      const uint64_t a = GetU(I.buf[0] + i * S, S);
      if (rel == 0) { Put(I.buf[1] + i * S, S, a); }
      if (rel == 1) { Put(I.buf[1] + i * S, S, a + g.below(3) - 1); }
      if (rel == 2 && g.below(2)) Put(I.buf[1] + i * S, S, a);
      if (rel == 3 && g.below(2)) Put(I.buf[2] + i * S, S, GetU(I.buf[1] + i * S, S));
    }
  }
  switch (gen) {
    case G_SHIFT: for (size_t i = 0; i < lanes; ++i) Put(I.buf[1] + i * S, S, iter % 4 == 0 ? (iter / 4) % bits : g.below(bits)); break;
    case G_IDX: for (size_t i = 0; i < lanes; ++i) Put(I.buf[1] + i * S, S, iter % 4 == 0 ? (i + iter / 4) % N : iter % 4 == 1 ? (iter / 4) % N : g.below(N)); break;
    case G_IDX2: for (size_t i = 0; i < lanes; ++i) Put(I.buf[1] + i * S, S, iter % 4 == 0 ? (i + iter / 4) % (2 * N) : g.below(2 * N)); break;
    case G_BIDX: for (size_t i = 0; i < kInBytes; ++i) I.buf[1][i] = uint8_t(g.below(std::min<size_t>(16, N * S))); break;
    case G_BIDX0: for (size_t i = 0; i < kInBytes; ++i) I.buf[1][i] = g.below(3) ? uint8_t(g.below(std::min<size_t>(16, N * S))) : uint8_t(0x80 | g()); break;
    case G_B64: for (size_t i = 0; i < kInBytes; ++i) I.buf[1][i] = uint8_t(g.below(64)); break;
    case G_BIT: for (size_t i = 0; i < lanes; ++i) Put(I.buf[1] + i * S, S, 1ull << g.below(bits)); break;
    case G_BYTE: for (int k = 0; k < 4; ++k) for (size_t i = 0; i < lanes; ++i) Put(I.buf[k] + i * S, S, g.below(256)); break;
    case G_SMALL:
      for (int k = 0; k < 4; ++k) for (size_t i = 0; i < lanes; ++i) {
        const int v = int(g.below(ty == BF16 ? 17 : 31)) - (ty == BF16 ? 8 : 15);
        Put(I.buf[k] + i * S, S, IsFloatTy(ty) ? FromDouble(ty, v) : uint64_t(int64_t(v)));
      }
      break;
    case G_FMOD:
      if (IsFloatTy(ty)) for (int k = 0; k < 4; ++k) for (size_t i = 0; i < lanes; ++i) {
        double m = 1.0 + double(g() >> 12) * 0x1p-52;
        double v = ldexp(m, int(g.below(20)) - 10) * (g.below(2) ? -1 : 1);
        if (g.below(16) == 0) v = 0;
        Put(I.buf[k] + i * S, S, ty == F16 ? FromDouble(ty, double(int(g.below(200)) - 100)) : FromDouble(ty, v));
      }
      break;
    case G_POW2:
      for (size_t i = 0; i < lanes; ++i) {
        const uint64_t k = g.below(4);
        const int64_t v = k == 0 ? int64_t(g()) : k == 1 ? int64_t(g.below(5)) - 2 : k == 2 ? int64_t(g.below(700)) - 350 : int64_t(g.below(5000)) - 2500;
        Put(I.buf[1] + i * S, S, uint64_t(v));
      }
      break;
    case G_KEY128:
      for (size_t i = 0; i < lanes; ++i) if (g.below(2)) Put(I.buf[1] + i * S, S, GetU(I.buf[0] + i * S, S) + (g.below(3) == 0 ? g.below(3) - 1 : 0));
      break;
    default: break;
  }
  // masks
  memset(I.buf[4], 0, kInBytes);
  const uint64_t mstyle = g.below(8);
  const uint64_t pat = iter;
  for (size_t i = 0; i < lanes; ++i) {
    uint64_t m1, m2 = g.below(2);
    if (N <= 8 && iter < (2ull << N)) m1 = (pat >> (i % N)) & 1;
    else switch (mstyle) {
      case 0: m1 = 1; break;
      case 1: m1 = 0; break;
      case 2: m1 = i % N == iter % N; break;
      case 3: m1 = i % N != iter % N; break;
      case 4: m1 = i % N < iter % (N + 1); break;
      case 5: m1 = i % N >= iter % (N + 1); break;
      default: m1 = g.below(2);
    }
    if (mstyle == 6 && N > 8) m2 = m1;
    if (mstyle == 7) m2 = !m1;
    if (gen == G_PAIRMASK && (i & 1)) m1 = I.buf[4][(i - 1) * S] & 1;
    if (gen == G_EXCL) m2 = m1 ? 0 : m2;
    I.buf[4][i * S] = uint8_t(m1 | (m2 << 1));
  }
}

// ---------------------------------------------------------------- compare
static double ToD(int ty, uint64_t v) {
  if (ty == F32) { uint32_t u = uint32_t(v); return FromBits<float>(u); }
  if (ty == F64) return FromBits<double>(v);
  if (ty == BF16) { uint32_t u = uint32_t(v) << 16; return FromBits<float>(u); }
  if (ty == F16) {
    const int e = (v >> 10) & 31; const double m = double(v & 0x3FF);
    double d = e == 31 ? ((v & 0x3FF) ? NAN : INFINITY) : e ? ldexp(1024 + m, e - 25) : ldexp(m, -24);
    return (v & 0x8000) ? -d : d;
  }
  if (ty == I8) return double(int8_t(v));
  if (ty == I16) return double(int16_t(v));
  if (ty == I32) return double(int32_t(v));
  if (ty == I64) return double(int64_t(v));
  return double(v);
}
static bool SameF(int ty, uint64_t a, uint64_t b) {
  return a == b || (IsFloatTy(ty) && ToD(ty, a) != ToD(ty, a) && ToD(ty, b) != ToD(ty, b));
}
static bool Ok(const R::E& e, uint64_t got) {
  switch (e.mode) {
    case kAny: return true;
    case kBits: return e.lo == got;
    case kEqF: return SameF(e.ty, e.lo, got);
    case kAlt: return SameF(e.ty, e.lo, got) || SameF(e.ty, e.hi, got);
    default: {
      const double lo = ToD(e.ty, e.lo), hi = ToD(e.ty, e.hi), x = ToD(e.ty, got);
      if (lo != lo || hi != hi) return true;
      return lo <= x && x <= hi;
    }
  }
}

struct Viol { std::string key, detail; };
static std::mutex g_mu;
static std::map<std::string, std::string> g_viol;
static std::atomic<uint64_t> g_eval{0}, g_vectors{0}, g_distinct{0};
static std::vector<std::string> g_samples;
static thread_local sigjmp_buf t_jmp;
static thread_local volatile bool t_armed = false;
static void OnSig(int sig) {
  if (t_armed) siglongjmp(t_jmp, sig);
  signal(sig, SIG_DFL);
  raise(sig);
}
static std::string Hex(const uint8_t* p, size_t n) {
  std::string s; char b[3];
  for (size_t i = 0; i < n; ++i) { snprintf(b, 3, "%02x", p[i]); s += b; }
  return s;
}
static void Report(const VecCase& vc, const Inputs& I, const std::string& what) {
  char key[128];
  snprintf(key, sizeof(key), "%s/%s/%zu/%s", vc.op, TyName(vc.ty), vc.N, vc.target);
  std::lock_guard<std::mutex> l(g_mu);
  if (g_viol.count(key) || g_viol.size() > 400) return;
  const size_t nb = std::min<size_t>(kInBytes, 2 * vc.N * TySize(vc.ty));
  std::string d = what + " inputs:";
  for (int k = 0; k < 5; ++k) d += std::string(" ") + "abcem"[k] + "=" + Hex(I.in[k], nb);
  g_viol[key] = d;
}

static double g_scale = 1;  // VT_SCALE
struct Opt { uint64_t seed = 1; bool thorough = false; std::string out, only, prop; int threads = 8; };
static Opt g_opt;

// Present if linked with the MemorySanitizer runtime (only the vector code is instrumented).
extern "C" __attribute__((weak)) intptr_t __msan_test_shadow(const volatile void* p, size_t n);
extern "C" __attribute__((weak)) void __msan_unpoison(const volatile void* p, size_t n);
static std::atomic<uint64_t> g_shadow{0};

static void Check(const RefCase& rc, const std::vector<const VecCase*>& cases, const Inputs& I, R& r, uint8_t* out, size_t N) {
  r.e.clear(); r.marks.clear(); r.limit_sizes = false;
  rc.fn(N, I.in, r);
  for (const VecCase* vc : cases) {
    const int sig = sigsetjmp(t_jmp, 1);
    if (sig) {
      t_armed = false;
      Report(*vc, I, "crashed with signal " + std::to_string(sig));
      continue;
    }
    t_armed = true;
    const size_t n = vc->fn(I.in, out);
    t_armed = false;
    const uint8_t* p = out;
    size_t i = 0, num = r.e.size();
    if (r.limit_sizes) for (auto& m : r.marks) if (m.size > out[0]) { num = m.at; break; }
    for (; i < num; ++i) {
      const R::E& e = r.e[i];
      const size_t s = TySize(e.ty);
      if (p + s > out + n) break;
      const uint64_t got = GetU(p, s);
      if (__msan_test_shadow && e.mode != kAny && e.mode != kPart) {
        g_shadow.fetch_add(1, std::memory_order_relaxed);
        if (__msan_test_shadow(p, s) >= 0) { Report(*vc, I, "element " + std::to_string(i) + " depends on uninitialised data;"); i = num; p = out + n; break; }
      }
      p += s;
      if (e.mode == kPart ? (out[0] && e.lo != got) : !Ok(e, got)) {
        char b[256];
        snprintf(b, sizeof(b), "element %zu: got %llx (%g) expected mode %d %llx (%g) / %llx", i, (unsigned long long)got, ToD(e.ty, got),
                 e.mode, (unsigned long long)e.lo, ToD(e.ty, e.lo), (unsigned long long)e.hi);
        Report(*vc, I, b);
        break;
      }
    }
    if (i == num && p != out + n) Report(*vc, I, "harness: output size mismatch " + std::to_string(n) + " vs " + std::to_string(p - out));
    else if (i < num && p + TySize(r.e[i].ty) > out + n) Report(*vc, I, "harness: output too short " + std::to_string(n));
    g_eval.fetch_add(r.e.size(), std::memory_order_relaxed);
  }
  g_vectors.fetch_add(cases.size(), std::memory_order_relaxed);
}

static void RunGroup(const RefCase& rc, size_t N, const std::vector<const VecCase*>& cases) {
  static thread_local std::vector<uint8_t> outv(kOutBytes + 64);
  uint8_t* out = reinterpret_cast<uint8_t*>((reinterpret_cast<uintptr_t>(outv.data()) + 63) & ~uintptr_t(63));
  static thread_local Inputs I;
  R r;
  uint64_t base = Hash(g_opt.seed * 0x1234567 + 99, rc.op, strlen(rc.op));
  base = Hash(base, &rc.ty, sizeof(rc.ty)); base = Hash(base, &N, sizeof(N));
  const size_t S = TySize(rc.ty);
  size_t iters = std::min<size_t>(1500, std::max<size_t>(250, 6000 / N));
  if (N <= 8) iters = std::max<size_t>(iters, 2u << N);
  // Table-driven ops: need (nearly) all 8-bit mask patterns per half.
  if (strstr(rc.op, "ompress") || strstr(rc.op, "xpand")) iters *= 10;
  if (g_opt.thorough) iters *= 20;
  iters = std::max<size_t>(8, size_t(double(iters) * g_scale));
  std::vector<uint64_t> hashes;
  for (size_t it = 0; it < iters; ++it) {
    Rng g(base + it * 0x9E37);
    Generate(I, rc.gen, rc.ty, N, it, g);
    Check(rc, cases, I, r, out, N);
    bool nz = false;
    uint64_t h = base;
    for (auto& e : r.e) { nz |= e.mode != kAny && (e.lo || e.hi); h = Hash(h, &e.lo, 8); }
    if (nz) hashes.push_back(h);
    if (it == 7 && N > 1) {
      std::lock_guard<std::mutex> l(g_mu);
      if (g_samples.size() < 12 && (base % 17) == 0)
        g_samples.push_back(std::string(rc.op) + "/" + TyName(rc.ty) + "/" + std::to_string(N) + " a=" + Hex(I.in[0], N * S) + " b=" + Hex(I.in[1], N * S) + " m=" + Hex(I.in[4], N * S) + " expect[0]=" + (r.e.empty() ? "" : std::to_string(r.e[0].lo)));
    }
  }
  // Exhaustive stage for lane-wise ops: all 8-bit operand pairs, all 16-bit values of a.
  size_t maxN = 0;
  for (auto* vc : cases) maxN = std::max(maxN, vc->N);
  if ((rc.gen == G_ANY || rc.gen == G_SHIFT) && S <= 2 && (N * S >= 16 || N == 1 || g_opt.thorough)) {
    const size_t total = 65536;
    for (size_t pos = 0; pos < total; pos += N) {
      for (size_t i = 0; i < N; ++i) {
        const uint64_t v = (pos + i) & 0xFFFF;
        if (S == 1) { I.buf[0][i] = uint8_t(v); I.buf[1][i] = uint8_t(v >> 8); if (rc.gen == G_SHIFT) I.buf[1][i] &= 7; }
        else Put(I.buf[0] + 2 * i, 2, v);
      }
      Check(rc, cases, I, r, out, N);
      uint64_t h = base;
      for (auto& e : r.e) h = Hash(h, &e.lo, 8);
      hashes.push_back(h);
    }
  }
  std::sort(hashes.begin(), hashes.end());
  g_distinct += std::unique(hashes.begin(), hashes.end()) - hashes.begin();
}

static std::string Esc(const std::string& s) {
  std::string o;
  for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; }
  return o;
}
}  // namespace vt

int main(int argc, char** argv) {
  using namespace vt;
  // This file is not instrumented: forget what earlier instrumented functions (static initialisers) left on the stack.
  if (__msan_unpoison) { char* top = static_cast<char*>(__builtin_frame_address(0)); __msan_unpoison(top - (1 << 16), 1 << 16); }
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") g_opt.seed = strtoull(v.c_str(), 0, 10);
    if (k == "--tier") g_opt.thorough = v == "thorough";
    if (k == "--out") g_opt.out = v;
    if (k == "--only") g_opt.only = v;
    if (k == "--threads") g_opt.threads = atoi(v.c_str());
  }
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) { struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = OnSig; sa.sa_flags = SA_NODEFER; sigaction(s, &sa, 0); }
  if (const char* e = getenv("VT_SCALE")) g_scale = atof(e);
  std::set<std::string> skipped, used;
  struct Job { const RefCase* rc; size_t N; std::vector<const VecCase*> cases; };
  std::map<std::pair<std::string, int>, std::map<size_t, std::vector<const VecCase*>>> by;
  for (auto& vc : VecCases()) {
    if (!CpuSupports(vc.target)) { skipped.insert(vc.target); continue; }
    used.insert(vc.target);
    by[{vc.op, vc.ty}][vc.N].push_back(&vc);
  }
  std::vector<Job> jobs;
  std::set<std::string> ops; size_t ncases = 0;
  std::vector<std::string> noref;
  for (auto& rc : RefCases()) {
    if (!g_opt.only.empty() && g_opt.only != rc.op && g_opt.only != std::string(rc.op) + "/" + TyName(rc.ty)) continue;
    auto it = by.find({rc.op, rc.ty});
    if (it == by.end()) continue;
    ops.insert(rc.op);
    for (auto& kv : it->second) { jobs.push_back({&rc, kv.first, kv.second}); ncases += kv.second.size(); }
  }
  std::atomic<size_t> next{0};
  std::vector<std::thread> th;
  for (int t = 0; t < g_opt.threads; ++t) th.emplace_back([&] {
    for (;;) { size_t i = next++; if (i >= jobs.size()) return; RunGroup(*jobs[i].rc, jobs[i].N, jobs[i].cases); }
  });
  for (auto& t : th) t.join();
  FILE* f = g_opt.out.empty() ? stdout : fopen(g_opt.out.c_str(), "w");
  fprintf(f, "{\"evaluations\":%llu,\"vectors\":%llu,\"distinct_nontrivial\":%llu,\"ops\":%zu,\"cases\":%zu,\"input_groups\":%zu,", (unsigned long long)g_eval, (unsigned long long)g_vectors,
          (unsigned long long)g_distinct, ops.size(), ncases, jobs.size());
  if (__msan_test_shadow) fprintf(f, "\"elements_checked_for_initialisation\":%llu,", (unsigned long long)g_shadow);
  auto list = [&](const char* n, const std::set<std::string>& s) { fprintf(f, "\"%s\":[", n); bool c = false; for (auto& x : s) { fprintf(f, "%s\"%s\"", c ? "," : "", x.c_str()); c = true; } fprintf(f, "],"); };
  list("targets", used); list("targets_unsupported_here", skipped); list("op_names", ops);
  fprintf(f, "\"samples\":["); for (size_t i = 0; i < g_samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", Esc(g_samples[i]).c_str());
  fprintf(f, "],\"violations\":["); bool c = false;
  for (auto& v : g_viol) { fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\"}", c ? ",\n" : "", Esc(v.first).c_str(), Esc(v.second).c_str()); c = true; }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
  return 0;
}
