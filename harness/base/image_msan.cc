// P13 under MemorySanitizer: padding that whole-vector loads may touch is
// initialised, pixels nobody wrote are not. Plain C-style reporting because the
// C++ library is not instrumented.
#include <sanitizer/msan_interface.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "hwy/contrib/image/image.h"
#include "hwy/per_target.h"
static unsigned long long evals, seen; static char key[100], detail[300]; static int nviol; static char viols[4000];
static void Viol(const char* k, size_t xs, size_t ys, size_t e, size_t at) { if (strstr(viols, k)) return; char b[300]; snprintf(b, 300, "%s{\"key\":\"%s\",\"detail\":\"%zux%zu elem %zu offset %zu\"}", nviol++ ? "," : "", k, xs, ys, e, at); strncat(viols, b, sizeof(viols) - strlen(viols) - 1); }
template <class T> static void One(size_t xs, size_t ys) {
  hwy::Image<T> im(xs, ys); const size_t vb = hwy::VectorBytes(), e = sizeof(T), n = xs * e;
  ++evals;
  for (size_t y = 0; y < ys; ++y) {
    if (__msan_test_shadow(im.ConstRow(y), n) != 0) Viol("Image/msan-pixels-look-initialised", xs, ys, e, 0);
    for (size_t x = 0; x < xs; ++x) im.MutableRow(y)[x] = T(x);
    const size_t up = (n + vb - 1) / vb * vb;
    const intptr_t bad = __msan_test_shadow(im.ConstRow(y), up); if (bad >= 0) Viol("Image/msan-padding-uninitialised", xs, ys, e, size_t(bad));
  }
  im.InitializePaddingForUnalignedAccesses();
  for (size_t y = 0; y < ys; ++y) {
    const intptr_t bad = __msan_test_shadow(im.ConstRow(y), n + vb - e); if (bad >= 0) Viol("Image/msan-unaligned-padding-uninitialised", xs, ys, e, size_t(bad));
    for (size_t x = 0; x < xs; ++x) if (im.ConstRow(y)[x] != T(x)) { Viol("Image/InitializePadding-changes-pixels", xs, ys, e, x); break; }
  }
}
int main(int argc, char** argv) {
  const char* out = nullptr; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--out")) out = argv[i + 1];
  for (size_t xs = 1; xs < 300; ++xs) { One<uint8_t>(xs, 1 + xs % 3); One<int16_t>(xs, 1 + xs % 3); One<float>(xs, 2); One<double>(xs, 2); seen += 4; }
  FILE* f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"counters\":{\"msan images\":%llu},\"samples\":[],\"violations\":[%s]}\n", evals, seen, evals, viols); fclose(f); return 0;
}
