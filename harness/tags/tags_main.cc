// P28: judges the tag rows of every target and the text printed for values and
// vectors; also the compile-time relations between lane types.
#include "../common/report.h"
#include "../common/aborts.h"
#include "../common/cpu.h"
#include "tags.h"
#include "hwy/print.h"
#include "hwy/targets.h"
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <functional>
namespace vt {
std::vector<TagRow>& TagRows() { static auto* v = new std::vector<TagRow>; return *v; }
std::vector<TagPrint>& TagPrints() { static auto* v = new std::vector<TagPrint>; return *v; }
std::vector<TargetRow>& TargetRows() { static auto* v = new std::vector<TargetRow>; return *v; }
std::vector<Collector>& Collectors() { static auto* v = new std::vector<Collector>; return *v; }
static const char* kFormName[] = {"ScalableTag", "CappedTag", "CappedTagIfFixed", "FixedTag", "Full", "Half", "Twice", "Rebind", "Repartition", "BlockDFromD", "DFromV"};
static size_t VecBytes(const std::string& t) { return t.compare(0, 4, "AVX3") == 0 ? 64 : t == "AVX2" ? 32 : 16; }
static size_t FullLanes(const char* target, int ty) { return strcmp(target, "SCALAR") == 0 ? 1 : VecBytes(target) / TySize(ty); }
static size_t FloorPow2(size_t n) { size_t r = 1; while (r * 2 <= n) r *= 2; return r; }
static size_t Scale(size_t n, int p) { const size_t r = p >= 0 ? n << p : n >> -p; return r ? r : 1; }
static void Rows() {
  Report& R = Rep();
  for (const TagRow& r : TagRows()) {
    const size_t full = FullLanes(r.target, r.ty), ts = TySize(r.ty); const bool scalar = !strcmp(r.target, "SCALAR"); const size_t bs = r.base_ty >= 0 ? TySize(r.base_ty) : 0; size_t want = 0;
    switch (r.form) {
      case kScalable: want = Scale(full, std::min(int(r.p), 3)); break;
      case kCapped: case kCappedIfFixed: want = Scale(std::min(FloorPow2(size_t(r.a)), full), std::min(int(r.p), 3)); break;
      case kFixed: want = size_t(r.a); break;
      case kFull: want = size_t(r.a) / ts; break;
      case kHalf: want = std::max<size_t>(1, r.base_lanes / 2); break;
      // Twice of a tag that was rounded up to one lane may stay at one lane.
      case kTwice: want = r.a ? r.base_lanes : 2 * r.base_lanes; break;
      case kRebind: case kFromV: want = r.base_lanes; break;
      case kRepartition: want = std::max<size_t>(1, r.base_lanes * bs / ts); break;
      case kBlock: want = std::min(16 / ts, r.base_lanes); break;
    }
    const std::string key = std::string(kFormName[r.form]) + "/" + TyName(r.ty), ctx = Fmt("%s: form %s parameter %ld power %d base %s x%zu (power %d)", r.target, kFormName[r.form], r.a, r.p, r.base_ty >= 0 ? TyName(r.base_ty) : "-", r.base_lanes, r.base_pow2);
    const bool may_round = r.form == kTwice && r.base_lanes == 1; const bool lanes_ok = r.lanes == want || (may_round && r.lanes == 1);
    R.Check(lanes_ok, key + "/lanes", "%s: %zu lanes, want %zu", ctx.c_str(), r.lanes, want);
    if (r.form == kFromV) R.Check(r.ty == r.base_ty, key + "/type", "%s", ctx.c_str());
    if (r.form == kCapped) R.Check(r.lanes <= Scale(size_t(r.a), std::max(0, int(r.p))), key + "/cap", "%s: %zu lanes", ctx.c_str(), r.lanes);
    R.Check(r.max_lanes == r.lanes && r.d_max_lanes == r.lanes && r.macro_lanes == r.lanes, key + "/MaxLanes", "%s: lanes %zu, bounds %zu %zu %zu", ctx.c_str(), r.lanes, r.max_lanes, r.d_max_lanes, r.macro_lanes);
    R.Check(r.max_bytes == r.lanes * ts && r.max_blocks == (r.lanes * ts + 15) / 16, key + "/MaxBytes", "%s: %zu lanes, %zu bytes, %zu blocks", ctx.c_str(), r.lanes, r.max_bytes, r.max_blocks);
    R.Check((r.lanes & (r.lanes - 1)) == 0 && r.lanes, key + "/power-of-two", "%s: %zu", ctx.c_str(), r.lanes);
    R.Check(r.aligned_ok, key + "/IsAligned", "%s", ctx.c_str());
    const bool fits = scalar ? r.lanes == 1 : r.lanes <= full;
    if (fits) R.Check(r.stored == long(r.lanes * ts) && r.stored_u == long(r.lanes * ts) && r.loaded == long(r.lanes * ts), key + "/stored", "%s: %zu lanes, Store wrote %ld bytes, StoreU %ld, a load and store moved %ld", ctx.c_str(), r.lanes, r.stored, r.stored_u, r.loaded);
    if (r.form == kHalf) R.Check(r.pow2 == r.base_pow2 - 1, key + "/Pow2", "%s", ctx.c_str()); if (r.form == kTwice && !r.a) R.Check(r.pow2 == r.base_pow2 + 1, key + "/Pow2", "%s", ctx.c_str());
    if (r.form == kRepartition) R.Check(r.pow2 == r.base_pow2, key + "/Pow2", "%s", ctx.c_str());
    if (r.form == kRebind) { int lg = 0; for (size_t a = bs; a < ts; a *= 2) ++lg; for (size_t a = ts; a < bs; a *= 2) --lg; R.Check(r.pow2 == r.base_pow2 + lg, key + "/Pow2", "%s: %d", ctx.c_str(), r.pow2); }
    R.Eval(6 + (fits ? 3 : 0)); R.See(Mix(Mix(Mix(HashBytes(1, r.target, strlen(r.target)), uint64_t(r.form * 16 + r.ty)), uint64_t(r.a * 64 + r.p)), uint64_t(r.base_ty + 1) * 4096 + r.base_lanes * 16 + uint64_t(r.base_pow2 + 8)));
  }
  R.Count("tags", TagRows().size());
  for (const TargetRow& t : TargetRows()) {
    R.Check(strcmp(t.name, t.target) == 0 && hwy::TargetName(t.id) == std::string(t.target), "TargetName", "%s", t.name);
    R.Check(t.max_bytes == (strcmp(t.target, "SCALAR") ? VecBytes(t.target) : 8), "HWY_MAX_BYTES", "%s: %zu", t.target, t.max_bytes); R.Eval(2);
  }
}
// ------------------------------------------------------------ text
static int g_err = -1, g_saved = -1;
static std::string Captured(const std::function<void()>& f) {
  fflush(stderr); ftruncate(g_err, 0); lseek(g_err, 0, SEEK_SET); dup2(g_err, 2); f(); fflush(stderr); dup2(g_saved, 2);
  std::string s; char b[4096]; lseek(g_err, 0, SEEK_SET); ssize_t n; while ((n = read(g_err, b, sizeof(b))) > 0) s.append(b, size_t(n)); return s;
}
static std::string TypeText(int ty, size_t lanes) { return (ty == BF16 ? "bf" : ty >= F32 ? "f" : ty >= I8 ? "i" : "u") + Fmt("%zu", TySize(ty) * 8) + (lanes == 1 ? "" : Fmt("x%zu", lanes)); }
static double Value(int ty, uint64_t bits) {
  if (ty == F32) { float f; const uint32_t u = uint32_t(bits); memcpy(&f, &u, 4); return double(f); } if (ty == F64) { double d; memcpy(&d, &bits, 8); return d; }
  if (ty == BF16) { float f; const uint32_t u = uint32_t(bits & 0xFFFF) << 16; memcpy(&f, &u, 4); return double(f); }
  const int e = int(bits >> 10 & 31), m = int(bits & 1023); const double s = bits & 0x8000 ? -1 : 1; if (e == 31) return m ? NAN : s * INFINITY; return s * (e ? std::ldexp(1024 + m, e - 25) : std::ldexp(m, -24));
}
static const int kDecimals[] = {0, 0, 0, 0, 0, 0, 0, 0, 9, 18, 4, 3};
// Whether |text| denotes the value |bits| of type |ty|.
static bool Denotes(int ty, uint64_t bits, const std::string& text) {
  if (text.empty() || text.size() > 98) return false; char* end; const size_t n = TySize(ty) * 8; const uint64_t mask = n == 64 ? ~0ull : (1ull << n) - 1; bits &= mask;
  if (ty <= I64) {
    std::string t = text; if (t.size() > 2 && t[0] == '0' && t[1] == 'x') { const uint64_t v = strtoull(t.c_str() + 2, &end, 16); return !*end && v == bits; }
    if (ty >= I8) { const long long v = strtoll(t.c_str(), &end, 10); const int64_t sv = n == 64 ? int64_t(bits) : int64_t(bits << (64 - n)) >> (64 - n); return !*end && v == sv; }
    const uint64_t v = strtoull(t.c_str(), &end, 10); return t[0] != '-' && !*end && v == bits;
  }
  const double v = Value(ty, bits); const double p = strtod(text.c_str(), &end); if (*end) return false;
  if (std::isnan(v)) return std::isnan(p); if (std::isinf(v)) return p == v;
  if (std::signbit(p) != std::signbit(v)) return false; const double unit = std::pow(10.0, -kDecimals[ty]); const double err = std::fabs(p - v), ulp = std::fabs(v) * 0x1p-52;
  return (err <= 0.5001 * unit + ulp && std::fabs(v) >= unit) || err <= 0.5001 * unit * std::fabs(v) * 1.0001 + ulp || (v == 0 && p == 0);
}
static hwy::detail::TypeInfo Info(int ty) { hwy::detail::TypeInfo i; i.sizeof_t = TySize(ty); i.is_float = ty >= F32; i.is_signed = ty >= I8; i.is_bf16 = ty == BF16; return i; }
static uint64_t DrawBits(Rng& g, int ty) {
  const size_t n = TySize(ty) * 8; uint64_t v = g(); const int k = int(g.below(6)); if (k == 0) v = g.below(3) - 1; if (k == 1) v = 1ull << g.below(64); if (k == 2) v = (1ull << g.below(64)) - 1;
  if (ty >= F32 && k == 3) { const double d = (g.below(2) ? -1 : 1) * std::pow(10.0, double(int(g.below(80)) - 40) * (ty == F64 ? 7.7 : ty == F16 ? 0.12 : 0.96)) * (1 + g.unit()); if (ty == F64) memcpy(&v, &d, 8); else { const float f = float(d); uint32_t u; memcpy(&u, &f, 4); v = ty == F32 ? u : ty == BF16 ? u >> 16 : g(); } }
  return n == 64 ? v : v & ((1ull << n) - 1);
}
static std::string Str(int ty, uint64_t bits) { char guard[160]; memset(guard, 0x7E, sizeof(guard)); hwy::detail::ToString(Info(ty), &bits, guard + 30); for (int i = 0; i < 30; ++i) if (guard[i] != 0x7E || guard[130 + i] != 0x7E) { Rep().Viol("ToString/overrun", TyName(ty)); } guard[159] = 0; const size_t n = strnlen(guard + 30, 100); if (n >= 100) Rep().Viol("ToString/overrun", Fmt("%s: no terminator", TyName(ty))); return std::string(guard + 30, std::min<size_t>(n, 99)); }
template <class T> static void Relations(int ty) {
  Report& R = Rep(); const std::string k = std::string("types/") + TyName(ty); const auto i = hwy::detail::MakeTypeInfo<T>(), w = Info(ty); R.Eval(4);
  R.Check(i.sizeof_t == w.sizeof_t && i.is_float == (ty >= F32 && ty != F16 && ty != BF16 ? true : i.is_float) && i.is_bf16 == w.is_bf16, k, "MakeTypeInfo");
  if (ty <= I64) R.Check(i.is_signed == w.is_signed && !i.is_float, k, "MakeTypeInfo sign"); else R.Check(i.is_float || i.is_bf16, k, "MakeTypeInfo float");
  using U = hwy::MakeUnsigned<T>; using S = hwy::MakeSigned<T>; R.Check(sizeof(U) == sizeof(T) && sizeof(S) == sizeof(T) && U(-1) > U(0) && S(-1) < S(0), k, "MakeUnsigned/MakeSigned"); R.Check(hwy::IsSpecialFloat<T>() == (ty == F16 || ty == BF16), k, "IsSpecialFloat");
}
static void Text(uint64_t seed, double scale) {
  Report& R = Rep(); Rng g(seed * 31 + 28); std::unordered_set<uint64_t> see;
  for (int ty = 0; ty < NTY; ++ty) {
    const bool all = TySize(ty) <= 2; const uint64_t n = all ? 1ull << (TySize(ty) * 8) : uint64_t(60000 * scale);
    for (uint64_t i = 0; i < n; ++i) { const uint64_t bits = all ? i : DrawBits(g, ty); const std::string s = Str(ty, bits); R.Eval(); see.insert(Mix(uint64_t(ty), bits)); R.Check(Denotes(ty, bits, s), std::string("ToString/") + TyName(ty), "bits 0x%llx (%.17g) printed as '%s'", (unsigned long long)bits, ty >= F32 ? Value(ty, bits) : double(bits), s.c_str()); }
    for (size_t lanes : {size_t(1), size_t(2), size_t(16), size_t(64), size_t(1000000)}) { char nm[100]; hwy::detail::TypeName(Info(ty), lanes, nm); const std::string want = TypeText(ty, lanes); R.Eval(); R.Check(want == nm || (ty == BF16 && want == std::string("b") + nm), std::string("TypeName/") + TyName(ty), "'%s', want '%s'", nm, want.c_str()); }
  }
  // 128-bit values: hexadecimal, most significant first.
  for (int i = 0; i < 200; ++i) { uint64_t v[2] = {DrawBits(g, U64), DrawBits(g, U64)}; hwy::detail::TypeInfo inf = Info(U8); inf.sizeof_t = 16; char s[100]; hwy::detail::ToString(inf, v, s); std::string t = s; t.erase(std::remove(t.begin(), t.end(), '_'), t.end()); R.Eval(); R.Check(t.size() == 34 && strtoull(t.substr(2, 16).c_str(), nullptr, 16) == v[1] && strtoull(t.substr(18).c_str(), nullptr, 16) == v[0], "ToString/u128", "'%s'", s); }
  R.SeeAll(see);
}
// Parses "<type> <caption> [<begin>+ ->]:\n  a,b,c,\n" and compares the listed lanes.
static void JudgePrint(const std::string& out, int ty, size_t lanes, const std::vector<uint64_t>& v, const std::string& caption, size_t lane, size_t max, const char* what) {
  Report& R = Rep(); R.Eval(); std::string head = TypeText(ty, lanes) + " " + caption + " ["; if (ty == BF16 && out[0] == 'f') head.erase(0, 1);
  const std::string key = std::string(what) + "/" + TyName(ty); if (!R.Check(out.compare(0, head.size(), head) == 0, key, "header of '%.120s', want '%s'", out.c_str(), head.c_str())) return;
  char* end; const size_t begin = strtoull(out.c_str() + head.size(), &end, 10); size_t nl = out.find('\n', size_t(end - out.c_str())); if (!R.Check(nl != std::string::npos && out.back() == '\n', key, "no lines: '%.120s'", out.c_str())) return;
  std::string body = out.substr(nl + 1, out.size() - nl - 2); std::vector<std::string> parts; std::string cur; for (char c : body) if (c == ',') { parts.push_back(cur); cur.clear(); } else if (c != ' ' || !cur.empty()) cur += c;
  const size_t want_n = begin < lanes ? std::min(max, lanes - begin) : 0;
  if (lane < lanes) R.Check(begin <= lane, key, "starts at lane %zu, asked for %zu", begin, lane);
  if (lane < lanes && max >= 3) R.Check(begin + parts.size() > lane, key, "lanes %zu+%zu printed, asked for %zu", begin, parts.size(), lane);
  R.Check(parts.size() == want_n, key, "%zu lanes printed from %zu of %zu, at most %zu wanted", parts.size(), begin, lanes, max);
  for (size_t i = 0; i < parts.size() && begin + i < lanes; ++i) R.Check(Denotes(ty, v[begin + i], parts[i]), key, "lane %zu (bits 0x%llx) printed as '%s'", begin + i, (unsigned long long)v[begin + i], parts[i].c_str());
}
static void Vectors(uint64_t seed, double scale) {
  Report& R = Rep(); Rng g(seed * 77 + 5);
  auto fill = [&](int ty, size_t n, std::vector<uint8_t>& raw) { std::vector<uint64_t> v(n); raw.assign(n * TySize(ty) + 64, 0); for (size_t i = 0; i < n; ++i) { v[i] = DrawBits(g, ty); memcpy(&raw[i * TySize(ty)], &v[i], TySize(ty)); } return v; };
  for (const TagPrint& p : TagPrints()) for (int rep = 0; rep < int(12 * scale) + 2; ++rep) {
    std::vector<uint8_t> raw; const auto v = fill(p.ty, p.lanes, raw); const size_t lane = g.below(p.lanes + 2), max = rep == 0 ? 7 : rep == 1 ? p.lanes : g.below(p.lanes + 9); const std::string cap = g.below(3) ? "caption" : "100% %s x";
    const std::string out = Captured([&] { p.print(raw.data(), cap.c_str(), lane, max); }); JudgePrint(out, p.ty, p.lanes, v, cap, lane, max, "Print"); R.See(Mix(HashBytes(9, out.data(), out.size()), 1));
  }
  for (int ty = 0; ty < NTY; ++ty) for (int rep = 0; rep < int(30 * scale) + 2; ++rep) {
    const size_t n = 1 + g.below(rep % 10 == 0 ? 400 : 20); std::vector<uint8_t> raw; const auto v = fill(ty, n, raw); const size_t lane = g.below(n), max = 1 + g.below(n + 5);
    std::string out = Captured([&] { hwy::detail::PrintArray(Info(ty), "c", raw.data(), n, lane, max); }); JudgePrint(out, ty, n, v, "c", lane, max, "detail::PrintArray");
#define EACH(T, TY) if (ty == TY) { out = Captured([&] { hwy::PrintArray(reinterpret_cast<const T*>(raw.data()), n); }); JudgePrint(out, ty, n, v, "", 0, n, "PrintArray"); T one; memcpy(&one, raw.data(), sizeof(T)); out = Captured([&] { hwy::PrintValue(one); }); R.Eval(); R.Check(!out.empty() && out.back() == ',' && Denotes(ty, v[0], out.substr(0, out.size() - 1)), std::string("PrintValue/") + TyName(ty), "0x%llx printed as '%s'", (unsigned long long)v[0], out.c_str()); }
    EACH(uint8_t, U8) EACH(uint16_t, U16) EACH(uint32_t, U32) EACH(uint64_t, U64) EACH(int8_t, I8) EACH(int16_t, I16) EACH(int32_t, I32) EACH(int64_t, I64) EACH(float, F32) EACH(double, F64) EACH(hwy::float16_t, F16) EACH(hwy::bfloat16_t, BF16)
  }
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); WatchAborts(); const char* sc = getenv("VT_SCALE"); const double scale = (R.thorough ? 40 : 1) * (sc ? atof(sc) : 1);
  g_saved = dup(2); char path[] = "/tmp/vt_print_XXXXXX"; g_err = mkstemp(path); unlink(path);
  for (auto& c : Collectors()) { if (!CpuSupports(c.target)) { R.skipped.insert(c.target); continue; } R.targets.insert(c.target); c.fn(); }
  Rows(); Relations<uint8_t>(U8); Relations<uint16_t>(U16); Relations<uint32_t>(U32); Relations<uint64_t>(U64); Relations<int8_t>(I8); Relations<int16_t>(I16); Relations<int32_t>(I32); Relations<int64_t>(I64); Relations<float>(F32); Relations<double>(F64); Relations<hwy::float16_t>(F16); Relations<hwy::bfloat16_t>(BF16);
  Text(R.seed, scale); Vectors(R.seed, scale);
  if (!TagRows().empty()) { const TagRow& r = TagRows()[TagRows().size() / 2]; R.Sample(Fmt("%s %s(%ld,%d) of %s: %zu lanes, %zu bytes stored %ld", r.target, kFormName[r.form], r.a, r.p, TyName(r.ty), r.lanes, r.max_bytes, r.stored)); }
  R.Sample("f64 0x7fe0000000000000 prints as " + Str(F64, 0x7fe0000000000000ull));
  return R.Write();
}
