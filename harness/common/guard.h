// Guarded memory arena: [PROT_NONE][data pages][PROT_NONE], plus a SIGSEGV
// handler that turns an access outside the arena into a recoverable event.
#ifndef VERIF_COMMON_GUARD_H_
#define VERIF_COMMON_GUARD_H_
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <stdlib.h>
#include <stdio.h>
namespace vt {
constexpr size_t kPage = 4096;
struct Arena {
  uint8_t* map = nullptr; size_t bytes = 0;
  explicit Arena(size_t pages) : bytes(pages * kPage) {
    map = static_cast<uint8_t*>(mmap(nullptr, bytes + 2 * kPage, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (map == MAP_FAILED) { perror("mmap"); exit(2); }
    if (mprotect(map + kPage, bytes, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(2); }
  }
  ~Arena() { munmap(map, bytes + 2 * kPage); }
  Arena(const Arena&) = delete;
  uint8_t* begin() const { return map + kPage; }
  uint8_t* end() const { return map + kPage + bytes; }
  void ReadOnly(bool ro) { mprotect(map + kPage, bytes, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
};
inline thread_local sigjmp_buf* volatile tl_jmp = nullptr;
inline thread_local volatile int tl_sig = 0;
inline thread_local void* volatile tl_addr = nullptr;
inline void FaultHandler(int sig, siginfo_t* si, void*) {
  if (tl_jmp) { tl_sig = sig; tl_addr = si->si_addr; siglongjmp(*tl_jmp, 1); }
  static const char m[] = "fault outside a monitored call\n";
  if (write(2, m, sizeof(m) - 1)) {}
  signal(sig, SIG_DFL); raise(sig);
}
inline void InstallFaultHandler() {
  struct sigaction sa; memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = FaultHandler; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(s, &sa, nullptr);
}
// Runs f; returns 0 or the signal number that interrupted it.
template <class F> int Guarded(F&& f) {
  sigjmp_buf buf; sigjmp_buf* prev = tl_jmp;
  if (sigsetjmp(buf, 1) == 0) { tl_jmp = &buf; f(); tl_jmp = prev; return 0; }
  tl_jmp = prev; return tl_sig;
}
}  // namespace vt
#endif
