// Watchdog: each thread names the call it is making; a call on a small input
// that is still running after kHangSeconds is reported and ends the run.
#ifndef VERIF_COMMON_WATCH_H_
#define VERIF_COMMON_WATCH_H_
#include <time.h>
#include <thread>
#include "report.h"
namespace vt {
inline uint64_t NowNs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return uint64_t(t.tv_sec) * 1000000000ull + uint64_t(t.tv_nsec); }
struct WatchSlot { std::atomic<uint64_t> start{0}; std::atomic<bool> used{false}; char desc[240] = {0}; };
inline WatchSlot* WatchSlots() { static WatchSlot* s = new WatchSlot[256]; return s; }
inline WatchSlot& MySlot() {
  static thread_local WatchSlot* s = nullptr;
  if (!s) for (int i = 0; i < 256; ++i) { bool f = false; if (WatchSlots()[i].used.compare_exchange_strong(f, true)) { s = &WatchSlots()[i]; break; } }
  if (!s) { static thread_local WatchSlot extra; s = &extra; }
  return *s;
}
struct Watched {
  explicit Watched(const char* f, ...) __attribute__((format(printf, 2, 3))) {
    WatchSlot& s = MySlot();
    va_list ap; va_start(ap, f); vsnprintf(s.desc, sizeof(s.desc), f, ap); va_end(ap);
    s.start.store(NowNs());
  }
  ~Watched() { MySlot().start.store(0); }
};
// |cls|: first word(s) of desc up to '|' identify the violation.
inline void StartWatchdog(int seconds = 60) {
  WatchSlots();
  std::thread([seconds] {
    uint64_t beats = 0, last = NowNs();
    for (;;) {
      timespec ts{0, 200000000}; nanosleep(&ts, nullptr);
      const uint64_t now = NowNs();
      if (now - last > 2000000000ull) beats = 0;  // we were starved: restart the clock
      last = now; ++beats;
      if (beats < 25) continue;
      for (int i = 0; i < 256; ++i) {
        const uint64_t st = WatchSlots()[i].start.load();
        if (st && now > st && now - st > uint64_t(seconds) * 1000000000ull) {
          std::string d = WatchSlots()[i].desc;
          Rep().Viol("hang " + d.substr(0, d.find('|')), Fmt("call still running after %d s: ", seconds) + d);
          Rep().Finish();
        }
      }
    }
  }).detach();
}
}  // namespace vt
#endif
