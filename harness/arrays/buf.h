// An array placed flush against an inaccessible page (before or after it) with
// canaries on the other side.
#ifndef VERIF_BUF_H_
#define VERIF_BUF_H_
#include "../common/guard.h"
namespace vt {
class Buf {
 public:
  explicit Buf(size_t pages) : a_(pages) {}
  // |elem|: element size; |offset| elements away from the guard page, |slack| accessible bytes reserved after the data.
  uint8_t* Place(size_t bytes, bool at_end, size_t offset_bytes, size_t slack = 0, uint8_t canary = 0xC9) {
    bytes_ = bytes; canary_ = canary; memset(a_.begin(), canary, a_.bytes);
    p_ = at_end ? a_.end() - slack - offset_bytes - bytes : a_.begin() + offset_bytes;
    return p_;
  }
  uint8_t* data() const { return p_; }
  bool Clean() const { for (const uint8_t* q = a_.begin(); q < p_; ++q) if (*q != canary_) return false; for (const uint8_t* q = p_ + bytes_; q < a_.end(); ++q) if (*q != canary_) return false; return true; }
  size_t Capacity() const { return a_.bytes; }
 private:
  Arena a_; uint8_t* p_ = nullptr; size_t bytes_ = 0; uint8_t canary_ = 0;
};
}  // namespace vt
#endif
