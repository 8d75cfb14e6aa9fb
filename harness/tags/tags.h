// P28: rows recorded by the per-target translation units. No Highway code here.
#ifndef VERIF_TAGS_H_
#define VERIF_TAGS_H_
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>
#include "../ops/core.h"
namespace vt {
enum Form { kScalable, kCapped, kCappedIfFixed, kFixed, kFull, kHalf, kTwice, kRebind, kRepartition, kBlock, kFromV, kNumForms };
// One tag: what it reports (lanes...pow2) and what storing a vector of it wrote (-1: too large for a vector).
struct TagRow {
  const char* target; int form, ty, base_ty; long a; int p;  // form parameters: limit/bytes and power of two
  size_t base_lanes; int base_pow2;
  size_t lanes, max_lanes, d_max_lanes, macro_lanes, max_bytes, max_blocks; int pow2;
  long stored, stored_u, loaded; bool aligned_ok;
};
std::vector<TagRow>& TagRows();
// Prints a full vector of |ty| loaded from |bytes| with Print().
struct TagPrint { const char* target; int ty; size_t lanes; void (*print)(const uint8_t* bytes, const char* caption, size_t lane, size_t max); };
std::vector<TagPrint>& TagPrints();
struct TargetRow { const char* target; int64_t id; size_t max_bytes; const char* name; int have_f16, have_f64, have_i64; };
std::vector<TargetRow>& TargetRows();
struct Collector { const char* target; void (*fn)(); };
std::vector<Collector>& Collectors();
}  // namespace vt
#endif
