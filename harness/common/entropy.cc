// Deterministic stand-in for hwy/contrib/sort/vqsort.cc's entropy source, for
// drivers that only need VQSort(double*) through auto_tune.h.
#include <stdint.h>
#include <string.h>
namespace hwy { bool Fill16BytesSecure(void* p) { const uint64_t v[2] = {0x0123456789ABCDEFull, 0xFEDCBA9876543210ull}; memcpy(p, v, 16); return true; } }
