// P13: Image / Image3 / AlignedNDArray. Every row is aligned, disjoint, inside
// the allocation and padded: whole vectors that start inside a row are written
// and read under AddressSanitizer, for every vector size the dispatcher offers.
#include "../common/report.h"
#include "../common/guard.h"
#include "../common/aborts.h"
#include <memory>
#include <sys/wait.h>
#include "hwy/contrib/image/image.h"
#include "hwy/aligned_allocator.h"
#include "hwy/per_target.h"
#include "hwy/targets.h"
namespace vt {
// Overridable by the vector size currently selected.
static size_t Vec() { return hwy::VectorBytes(); }
template <class T> static T Val(uint64_t s, size_t x, size_t y) { const uint64_t h = Mix(s, y * 1000003 + x); return T(int8_t(h)); }
// Elements whose size is not a power of two.
template <size_t N> struct Odd { uint8_t b[N]; bool operator==(const Odd& o) const { return memcmp(b, o.b, N) == 0; } bool operator!=(const Odd& o) const { return !(*this == o); } };
template <class T> struct Make { static T Of(uint64_t h) { return T(int8_t(h)); } };
template <size_t N> struct Make<Odd<N>> { static Odd<N> Of(uint64_t h) { Odd<N> o; memset(o.b, uint8_t(h), N); return o; } };
template <class T> static T Elem(uint64_t s, size_t x, size_t y) { return Make<T>::Of(Mix(s, y * 1000003 + x)); }
// Full-vector accesses as documented.
template <class Img> static void Touch(const Img& im, size_t elem, const char* what) {
  const size_t vb = Vec();
  std::vector<uint8_t> v(vb);
  for (size_t y = 0; y < im.ysize(); ++y) {
    auto* row = reinterpret_cast<volatile uint8_t*>(im.MutableRow(y)); const size_t n = im.xsize() * elem;
    for (size_t x = 0; x < n; x += vb) for (size_t k : {size_t{0}, vb - 1}) row[x + k] = row[x + k];            // aligned Load/Store
    if (vb > 1 && n) for (size_t k : {size_t{0}, vb - 1}) row[n - elem + k] = row[n - elem + k];             // unaligned at the last pixel
  }
}
template <class T> static void Images(uint64_t seed, int steps) {
  Report& R = Rep(); Rng g(seed); const size_t e = sizeof(T);
  std::vector<hwy::Image<T>> keep;
  for (int s = 0; s < steps; ++s) {
    size_t xs, ys;
    switch (g.below(7)) { case 0: xs = g.below(5); ys = g.below(5); break; case 1: xs = Vec() / e * (1 + g.below(5)); ys = 1 + g.below(6); break; case 2: xs = 128 / e * (1 + g.below(9)) + g.below(3) - 1; ys = 1 + g.below(6); break; case 3: xs = 1; ys = 1 + g.below(100); break; case 4: xs = 2048 / e * (1 + g.below(3)) - g.below(40); ys = 1 + g.below(4); break; case 5: xs = 1 + g.below(3000); ys = 1 + g.below(3); break; default: xs = 1 + g.below(300); ys = 1 + g.below(20); }
    R.Eval(); const uint64_t salt = g();
    AbortContext() = Fmt("Image|%zux%zu elem %zu vec %zu", xs, ys, e, Vec());
    hwy::Image<T> im(xs, ys);
    R.Check(im.xsize() == xs && im.ysize() == ys, "Image/size", "%zux%zu got %zux%zu", xs, ys, im.xsize(), im.ysize());
    const std::string d = AbortContext();
    if (xs && ys) {
      const size_t stride = im.bytes_per_row();
      R.Check(stride >= xs * e + (Vec() > 1 ? Vec() - e : 0) && stride >= (xs * e + Vec() - 1) / Vec() * Vec(), "Image/padding", "%s stride %zu", d.c_str(), stride);
      R.Check(stride % e == 0 && size_t(im.PixelsPerRow()) * e == stride, "Image/PixelsPerRow", "%s", d.c_str());
      for (size_t y = 0; y < ys; ++y) {
        const auto p = reinterpret_cast<uintptr_t>(im.ConstRow(y));
        R.Check(p % std::max<size_t>(Vec(), HWY_ALIGNMENT) == 0, "Image/row-alignment", "%s row %zu at %p", d.c_str(), y, (void*)p);
        R.Check(p - reinterpret_cast<uintptr_t>(im.bytes()) == y * stride && reinterpret_cast<uintptr_t>(im.MutableRow(y)) == p, "Image/row-address", "%s row %zu", d.c_str(), y);
        for (size_t x = 0; x < xs; ++x) im.MutableRow(y)[x] = Val<T>(salt, x, y);
      }
      Touch(im, e, "Image");
    }
    auto same = [&](const hwy::Image<T>& m, size_t w, size_t h, uint64_t sl, const char* what) {
      for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) if (m.ConstRow(y)[x] != Val<T>(sl, x, y)) { R.Viol(std::string("Image/") + what, d + Fmt(" at %zu,%zu", x, y)); return; }
    };
    same(im, xs, ys, salt, "pixels-after-vector-access");
    switch (g.below(5)) {
      case 0: { const uint8_t* b = im.bytes(); hwy::Image<T> m(std::move(im)); R.Check(m.bytes() == b && m.xsize() == xs && m.ysize() == ys, "Image/move", "%s", d.c_str()); same(m, xs, ys, salt, "move"); im = std::move(m); same(im, xs, ys, salt, "move-assign"); } break;
      case 1: { hwy::Image<T> o(1 + xs / 2, ys + 1); const uint64_t s2 = g(); for (size_t y = 0; y < o.ysize(); ++y) for (size_t x = 0; x < o.xsize(); ++x) o.MutableRow(y)[x] = Val<T>(s2, x, y);
        o.Swap(im); R.Check(o.xsize() == xs && o.ysize() == ys && im.xsize() == 1 + xs / 2 && im.ysize() == ys + 1, "Image/swap-size", "%s", d.c_str()); same(o, xs, ys, salt, "swap"); same(im, im.xsize(), im.ysize(), s2, "swap"); if (xs && ys) Touch(o, e, "swap"); Touch(im, e, "swap"); } break;
      case 2: { const size_t nx = xs ? g.below(xs + 1) : 0, ny = ys ? g.below(ys + 1) : 0; im.ShrinkTo(nx, ny); R.Check(im.xsize() == nx && im.ysize() == ny, "Image/shrink-size", "%s", d.c_str()); same(im, nx, ny, salt, "shrink"); } break;
      case 3: if (xs && ys) { im.InitializePaddingForUnalignedAccesses(); same(im, xs, ys, salt, "InitializePadding"); keep.push_back(std::move(im)); if (keep.size() > 5) keep.erase(keep.begin()); for (size_t a = 0; a < keep.size(); ++a) Touch(keep[a], e, "kept"); } break;
      default: if (xs && ys) {  // external memory
        const size_t stride = im.bytes_per_row(); auto mem = hwy::AllocateAligned<uint8_t>(stride * ys); memset(mem.get(), 0x33, stride * ys);
        { hwy::Image<T> x(xs, ys, stride, mem.get()); Touch(x, e, "external"); for (size_t y = 0; y < ys; ++y) for (size_t i = 0; i < xs; ++i) x.MutableRow(y)[i] = Val<T>(salt, i, y); same(x, xs, ys, salt, "external"); hwy::Image<T> y2(std::move(x)); }
        for (size_t y = 0; y < ys; ++y) for (size_t k = xs * e; k < stride; ++k) if (mem[y * stride + k] != 0x33) { R.Viol("Image/external-padding-written", d); break; }
      }
    }
    AbortContext().clear();
    R.See(Mix(Mix(xs, ys), Mix(e, Vec())));
    if (g.below(2000) == 0) R.Sample(d + " ok");
  }
}
template <class T> static void Images3(uint64_t seed, int steps) {
  Report& R = Rep(); Rng g(seed);
  for (int s = 0; s < steps; ++s) {
    const size_t xs = 1 + g.below(200), ys = 1 + g.below(9); const uint64_t salt = g(); R.Eval();
    const std::string d = Fmt("Image3|%zux%zu elem %zu vec %zu", xs, ys, sizeof(T), Vec()); AbortContext() = d;
    hwy::Image3<T> im = (s & 1) ? hwy::Image3<T>(xs, ys) : hwy::Image3<T>(hwy::Image<T>(xs, ys), hwy::Image<T>(xs, ys), hwy::Image<T>(xs, ys));
    auto fill = [&](hwy::Image3<T>& m, uint64_t sl) { for (size_t c = 0; c < 3; ++c) for (size_t y = 0; y < m.ysize(); ++y) for (size_t x = 0; x < m.xsize(); ++x) m.MutablePlaneRow(c, y)[x] = Val<T>(sl + c, x, y); };
    auto same = [&](const hwy::Image3<T>& m, size_t w, size_t h, uint64_t sl, const char* what) { R.Check(m.xsize() == w && m.ysize() == h, std::string("Image3/size-") + what, "%s", d.c_str());
      for (size_t c = 0; c < 3; ++c) for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) if (m.ConstPlaneRow(c, y)[x] != Val<T>(sl + c, x, y) || m.Plane(c).ConstRow(y)[x] != m.ConstPlaneRow(c, y)[x]) { R.Viol(std::string("Image3/") + what, d + Fmt(" c=%zu %zu,%zu", c, x, y)); return; } };
    fill(im, salt); for (size_t c = 0; c < 3; ++c) Touch(im.Plane(c), sizeof(T), "Image3"); same(im, xs, ys, salt, "pixels");
    hwy::Image3<T> o(xs / 2 + 1, ys / 2 + 1); fill(o, salt + 9); o.Swap(im); same(o, xs, ys, salt, "swap"); same(im, xs / 2 + 1, ys / 2 + 1, salt + 9, "swap");
    hwy::Image3<T> m(std::move(o)); same(m, xs, ys, salt, "move"); im = std::move(m); same(im, xs, ys, salt, "move-assign");
    const size_t nx = g.below(xs + 1), ny = g.below(ys + 1); im.ShrinkTo(nx, ny); same(im, nx, ny, salt, "shrink");
    AbortContext().clear(); R.See(Mix(Mix(xs, ys), Mix(sizeof(T) + 100, Vec())));
  }
}
// Rectangles and mirrored coordinates against their definitions.
static void Rects(uint64_t seed, int steps) {
  Report& R = Rep(); Rng g(seed); hwy::ImageF im(97, 41); hwy::Image3F im3(97, 41);
  for (size_t y = 0; y < 41; ++y) for (size_t x = 0; x < 97; ++x) { im.MutableRow(y)[x] = float(y * 1000 + x); for (size_t c = 0; c < 3; ++c) im3.MutablePlaneRow(c, y)[x] = float(c * 100000 + y * 1000 + x); }
  for (int s = 0; s < steps; ++s) {
    R.Eval();
    auto clamp = [](size_t b, size_t m, size_t e) -> size_t { return b >= e ? 0 : std::min(m, e - b); };
    const size_t x0 = g.below(120), y0 = g.below(60), w = g.below(120), h = g.below(60);
    const hwy::Rect r(x0, y0, w, h, im.xsize(), im.ysize());
    R.Check(r.x0() == x0 && r.y0() == y0 && r.xsize() == clamp(x0, w, 97) && r.ysize() == clamp(y0, h, 41), "Rect/clamp", "%zu,%zu %zux%zu -> %zux%zu", x0, y0, w, h, r.xsize(), r.ysize());
    const hwy::Rect q(x0, y0, w, h);
    R.Check(q.IsInside(im) == (x0 + w <= 97 && y0 + h <= 41), "Rect/IsInside", "%zu,%zu %zux%zu", x0, y0, w, h);
    hwy::Rect rr = r; const size_t sx = g.below(100), sy = g.below(50), sw = g.below(100), sh = g.below(50);
    const hwy::Rect sub = rr.Subrect(sx, sy, sw, sh);
    R.Check(sub.x0() == x0 + sx && sub.y0() == y0 + sy && sub.xsize() == clamp(sx, sw, r.xsize()) && sub.ysize() == clamp(sy, sh, r.ysize()), "Rect/Subrect", "%zu,%zu %zux%zu in %zux%zu", sx, sy, sw, sh, r.xsize(), r.ysize());
    for (size_t y = 0; y < r.ysize(); y += 1 + g.below(8)) for (size_t x = 0; x < r.xsize(); x += 1 + g.below(20)) {
      const float want = float((y0 + y) * 1000 + x0 + x);
      R.Check(r.ConstRow(&im, y)[x] == want && r.MutableRow(&im, y)[x] == want, "Rect/row", "%zu,%zu", x, y);
      for (size_t c = 0; c < 3; ++c) R.Check(r.ConstPlaneRow(im3, c, y)[x] == float(c * 100000) + want && r.MutablePlaneRow(&im3, c, y)[x] == float(c * 100000) + want, "Rect/plane-row", "%zu,%zu", x, y);
    }
    const int64_t n = 1 + int64_t(g.below(50)), c = int64_t(g.below(uint64_t(6 * n))) - 3 * n;
    const int64_t period = 2 * n; int64_t m = ((c % period) + period) % period; if (m >= n) m = period - 1 - m;
    R.Check(int64_t(hwy::Mirror(c, n)) == m && int64_t(hwy::WrapMirror()(c, size_t(n))) == m, "Mirror", "coord %lld size %lld", (long long)c, (long long)n);
    const int64_t stride = im.PixelsPerRow(); const int64_t row = int64_t(g.below(41 * 3)) - 41; int64_t mr = row < 0 ? -row - 1 : row >= 41 ? 81 - row : row;
    hwy::WrapRowMirror wrap(im, 41); R.Check(wrap(im.ConstRow(0) + row * stride, stride) == im.ConstRow(size_t(mr)), "WrapRowMirror", "row %lld", (long long)row);
  }
}
template <class T, size_t axes> static void Arrays(uint64_t seed, int steps) {
  Report& R = Rep(); Rng g(seed);
  for (int s = 0; s < steps; ++s) {
    std::array<size_t, axes> shape; size_t total = 1; for (auto& v : shape) { v = 1 + g.below(axes == 1 ? 500 : axes == 2 ? 40 : axes == 3 ? 12 : 5); total *= v; }
    if (axes > 1 && g.below(3) == 0) shape[axes - 1] = Vec() * (1 + g.below(2));
    total = 1; for (auto v : shape) total *= v;
    R.Eval(); const std::string d = Fmt("AlignedNDArray|axes %zu sizeof %zu last %zu total %zu vec %zu", axes, sizeof(T), shape[axes - 1], total, Vec()); AbortContext() = d;
    hwy::AlignedNDArray<T, axes> a(shape);
    R.Check(a.size() == total && a.shape() == shape, "AlignedNDArray/size", "%s", d.c_str());
    size_t mem = 1; for (size_t k = 0; k < axes; ++k) { mem *= a.memory_shape()[k]; R.Check(a.memory_shape()[k] >= shape[k], "AlignedNDArray/memory-shape", "%s", d.c_str()); }
    R.Check(a.memory_size() == mem, "AlignedNDArray/memory-size", "%s", d.c_str());
    std::map<uintptr_t, uintptr_t> rows; std::array<size_t, axes == 1 ? 1 : axes - 1> idx{};
    const uint64_t salt = g(); const size_t nrows = total / shape[axes - 1];
    auto index = [&](size_t r) { std::array<size_t, axes - 1> ix{}; for (size_t k = axes - 1; k-- > 0;) { ix[k] = r % shape[k]; r /= shape[k]; } return ix; };
    auto get = [&](hwy::AlignedNDArray<T, axes>& x, size_t r) { auto ix = index(r); std::array<const size_t, axes - 1>* c = reinterpret_cast<std::array<const size_t, axes - 1>*>(&ix); return x[*c]; };
    for (size_t r = 0; r < nrows; ++r) {
      auto sp = get(a, r); const auto b = reinterpret_cast<uintptr_t>(sp.data());
      R.Check(sp.size() == shape[axes - 1], "AlignedNDArray/row-size", "%s", d.c_str());
      R.Check(b % Vec() == 0, "AlignedNDArray/row-alignment", "%s row %zu", d.c_str(), r);
      const size_t room = (sp.size() * sizeof(T) + Vec() - 1) / Vec() * Vec();  // whole vectors
      R.Check(b >= reinterpret_cast<uintptr_t>(a.data()) && b + room <= reinterpret_cast<uintptr_t>(a.data() + a.memory_size()), "AlignedNDArray/row-outside", "%s row %zu", d.c_str(), r);
      auto it = rows.lower_bound(b); bool ok = it == rows.end() || b + room <= it->first; if (it != rows.begin()) { --it; ok &= it->second <= b; } R.Check(ok, "AlignedNDArray/rows-overlap", "%s row %zu", d.c_str(), r); rows[b] = b + room;
      for (size_t x = 0; x < sp.size(); ++x) { R.Check(sp[x] == Make<T>::Of(0), "AlignedNDArray/not-zero", "%s", d.c_str()); }
    }
    for (size_t r = 0; r < nrows; ++r) { auto sp = get(a, r); for (size_t x = 0; x < sp.size(); ++x) sp[x] = Elem<T>(salt, x, r); }
    hwy::AlignedNDArray<T, axes> b(std::move(a));
    for (size_t r = 0; r < nrows; ++r) { auto sp = get(b, r); for (size_t x = 0; x < sp.size(); ++x) if (sp[x] != Elem<T>(salt, x, r)) { R.Viol("AlignedNDArray/contents", d); break; } }
    auto small = shape; for (auto& v : small) v = 1 + g.below(v); b.truncate(small); size_t st = 1; for (auto v : small) st *= v;
    R.Check(b.shape() == small && b.size() == st && b.memory_size() == mem, "AlignedNDArray/truncate", "%s", d.c_str());
    for (size_t r = 0; r < nrows; ++r) { auto ix = index(r); bool in = true; for (size_t k = 0; k + 1 < axes; ++k) in &= ix[k] < small[k]; if (!in) continue; auto sp = get(b, r); R.Check(sp.size() == small[axes - 1], "AlignedNDArray/truncate-row", "%s", d.c_str()); for (size_t x = 0; x < sp.size(); ++x) if (sp[x] != Elem<T>(salt, x, r)) { R.Viol("AlignedNDArray/truncate-contents", d); break; } }
    AbortContext().clear(); R.See(Mix(Mix(total, shape[axes - 1]), Mix(axes, sizeof(T)) + Vec()));
  }
}
// Sizes whose byte count overflows: refused, never a short allocation.
static void Overflow(uint64_t seed) {
  Report& R = Rep(); Rng g(seed);
  for (int s = 0; s < 100000; ++s) {
    // bytes_per_row * ysize just above 2^64.
    const size_t xs = (size_t{1} << 29) + g.below(size_t{1} << 29);
    const hwy::Image<double>* probe = nullptr; (void)probe;
    const size_t bpr_guess = (xs * 8 + (Vec() > 1 ? Vec() - 8 : 0) + 127) / 128 * 128 + 128;
    const size_t ys = size_t((((unsigned __int128)1 << 64) + bpr_guess - 1) / bpr_guess);
    const size_t low = size_t(bpr_guess * ys);
    if (ys >> 32 || low > (size_t{64} << 20)) continue;
    R.Eval(); R.Count("overflowing image sizes");
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) { hwy::SetAbortFunc([](const char*, int, const char*) { _exit(0); }); hwy::Image<double> im(xs, ys); _exit(im.bytes() == nullptr ? 0 : 3); }
    int st = 0; waitpid(pid, &st, 0);
    R.Check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "Image/overflow-short-allocation", "%zux%zu doubles got %zu bytes", xs, ys, low);
    if (R.counters["overflowing image sizes"] >= 5) break;
  }
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt; Report& R = Rep(); R.Parse(argc, argv); WatchAborts();
  const double scale = (getenv("VT_SCALE") ? atof(getenv("VT_SCALE")) : 1) * (R.thorough ? 12 : 1);
  const int64_t all = hwy::SupportedTargets();
  std::set<size_t> sizes; int pass = 0;
  // Every vector size the dispatcher can select (Image must use the current one).
  std::vector<int64_t> masks{0}; for (int b = 0; b < 62; ++b) if ((all >> b) & 1) masks.push_back(int64_t{1} << b);
  for (int64_t only : masks) {
    hwy::SetSupportedTargetsForTest(only ? only : 0); hwy::GetChosenTarget().Update(hwy::SupportedTargets());
    if (!sizes.insert(Vec()).second && pass > 2) continue;
    ++pass; const uint64_t s = Mix(R.seed, uint64_t(pass)); const int n = int(500 * scale);
    Images<uint8_t>(s, n); Images<int16_t>(s, n); Images<float>(s, n); if (Vec() == 1 || Vec() >= 8) Images<double>(s, n);
    Images3<uint8_t>(s, n / 4); Images3<float>(s, n / 4);
    Arrays<uint8_t, 2>(s, n / 4); Arrays<float, 2>(s, n / 4); Arrays<double, 3>(s, n / 4); Arrays<int16_t, 4>(s, n / 4); Arrays<float, 5>(s, n / 8);
    Arrays<Odd<3>, 2>(s, n / 4); Arrays<Odd<12>, 2>(s, n / 4); Arrays<Odd<5>, 3>(s, n / 8); Arrays<Odd<24>, 2>(s, n / 8); Arrays<Odd<200>, 2>(s, n / 16);
  }
  Rects(R.seed, int(4000 * scale)); if (!HWY_IS_ASAN) Overflow(R.seed);
  hwy::SetSupportedTargetsForTest(0);
  R.counters["vector sizes"] = sizes.size();
  return R.Write();
}
