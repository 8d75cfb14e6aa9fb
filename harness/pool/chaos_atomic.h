// Textually replaces std::atomic inside the Highway threading headers with a
// wrapper that behaves identically but injects random delays before and after
// operations and counts the interleaving it observed. Include after all std
// headers, before Highway's threading headers.
#ifndef VERIF_CHAOS_ATOMIC_H_
#define VERIF_CHAOS_ATOMIC_H_
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <atomic>
#include <array>
#include <thread>
#include <vector>
#include <string>
#include <functional>
#include <algorithm>
#include <memory>
#include <mutex>
namespace vt {
struct Chaos {
  static std::atomic<int>& Level() { static std::atomic<int> l{0}; return l; }  // 0 none, 1..3 harsher
  static std::atomic<uint64_t>& Seed() { static std::atomic<uint64_t> s{1}; return s; }
  static std::atomic<uint64_t>& Ops() { static std::atomic<uint64_t> s{0}; return s; }
  static std::atomic<uint64_t>& Delays() { static std::atomic<uint64_t> s{0}; return s; }
  // Running hash of the order in which threads' atomic operations happened.
  static std::atomic<uint64_t>& Trace() { static std::atomic<uint64_t> s{0}; return s; }
  static uint64_t& State() { static thread_local uint64_t s = 0; return s; }
  static uint32_t& Me() { static std::atomic<uint32_t> n{0}; static thread_local uint32_t m = ++n; return m; }
  static uint64_t Next() {
    uint64_t& s = State();
    if (!s) s = Seed().load(std::memory_order_relaxed) * 0x9E3779B97F4A7C15ull + Me() * 0xD1B54A32D192ED03ull + 1;
    s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s;
  }
  // One straggler: the thread that last ran a task with this worker index
  // (see WhoAmI) is delayed at every atomic operation.
  static std::atomic<int>& Slow() { static std::atomic<int> s{-1}; return s; }
  static int& MyWorker() { static thread_local int w = -2; return w; }
  // Called with the address before every load on this thread, if set: a script
  // may change the value, as if another thread ran in between.
  static void (*&LoadHook())(const void*) { static thread_local void (*h)(const void*) = nullptr; return h; }
  // Before the first task, the thread's name is the only clue (if it has one).
  static int WhoAmI() {
    int& w = MyWorker();
    if (w == -2) { char b[16] = {0}; if (pthread_getname_np(pthread_self(), b, sizeof(b)) == 0 && strncmp(b, "worker", 6) == 0) w = atoi(b + 6); }
    return w;
  }
  static inline void Point(bool rare) {
    const int slow = Slow().load(std::memory_order_relaxed);
    if (slow >= 0) {
      if (slow == WhoAmI()) { Delays().fetch_add(1, std::memory_order_relaxed); timespec t{0, 2500000}; nanosleep(&t, nullptr); }
      return;
    }
    const int l = Level().load(std::memory_order_relaxed);
    if (!l) return;
    const uint64_t r = Next();
    // Loads in spin loops are frequent: delay them rarely.
    const uint64_t m = rare ? 1023 : (l >= 2 ? 7 : 31);
    if ((r & m) != 0) return;
    Delays().fetch_add(1, std::memory_order_relaxed);
    switch ((r >> 20) & 7) {
      case 0: case 1: case 2: sched_yield(); break;
      case 3: case 4: for (volatile int i = 0; i < int((r >> 30) & 2047); ++i) {} break;
      case 5: { timespec t{0, long((r >> 30) % 30000)}; nanosleep(&t, nullptr); break; }
      case 6: { timespec t{0, long((r >> 30) % (l >= 3 ? 2000000 : 100000))}; nanosleep(&t, nullptr); break; }
      default: for (int i = 0; i < 4; ++i) sched_yield(); break;
    }
  }
  static inline void Note() {
    Ops().fetch_add(1, std::memory_order_relaxed);
    const uint64_t t = Trace().load(std::memory_order_relaxed);
    Trace().store((t ^ Me()) * 0x9E3779B97F4A7C15ull + (t >> 29), std::memory_order_relaxed);
  }
};
}  // namespace vt
namespace std {
template <class T> class chaos_atomic : public std::atomic<T> {
  using B = std::atomic<T>;
 public:
  chaos_atomic() noexcept : B() {}
  constexpr chaos_atomic(T v) noexcept : B(v) {}
  chaos_atomic(const chaos_atomic&) = delete;
  T load(memory_order o = memory_order_seq_cst) const noexcept {
    vt::Chaos::Point(true);
    if (auto h = vt::Chaos::LoadHook()) h(this);
    return B::load(o);
  }
  void store(T v, memory_order o = memory_order_seq_cst) noexcept { vt::Chaos::Point(false); vt::Chaos::Note(); B::store(v, o); vt::Chaos::Point(false); }
  T fetch_add(T v, memory_order o = memory_order_seq_cst) noexcept { vt::Chaos::Point(false); vt::Chaos::Note(); const T r = B::fetch_add(v, o); vt::Chaos::Point(false); return r; }
  T fetch_sub(T v, memory_order o = memory_order_seq_cst) noexcept { vt::Chaos::Point(false); vt::Chaos::Note(); const T r = B::fetch_sub(v, o); vt::Chaos::Point(false); return r; }
  T exchange(T v, memory_order o = memory_order_seq_cst) noexcept { vt::Chaos::Point(false); const T r = B::exchange(v, o); vt::Chaos::Point(false); return r; }
  bool compare_exchange_weak(T& e, T d, memory_order o = memory_order_seq_cst) noexcept { vt::Chaos::Point(false); const bool r = B::compare_exchange_weak(e, d, o); vt::Chaos::Point(false); return r; }
  bool compare_exchange_weak(T& e, T d, memory_order o, memory_order f) noexcept { vt::Chaos::Point(false); const bool r = B::compare_exchange_weak(e, d, o, f); vt::Chaos::Point(false); return r; }
  bool compare_exchange_strong(T& e, T d, memory_order o = memory_order_seq_cst) noexcept { vt::Chaos::Point(false); const bool r = B::compare_exchange_strong(e, d, o); vt::Chaos::Point(false); return r; }
  bool compare_exchange_strong(T& e, T d, memory_order o, memory_order f) noexcept { vt::Chaos::Point(false); const bool r = B::compare_exchange_strong(e, d, o, f); vt::Chaos::Point(false); return r; }
  operator T() const noexcept { return load(); }
  T operator=(T v) noexcept { store(v); return v; }
};
}  // namespace std
#endif
