// Scripted time: RDTSC/RDTSCP of the calling thread trap (PR_SET_TSC) and are
// emulated from a per-thread clock the driver controls.
#ifndef VERIF_COMMON_VCLOCK_H_
#define VERIF_COMMON_VCLOCK_H_
#include <signal.h>
#include <stdint.h>
#include <string.h>
#include <sys/prctl.h>
#include <ucontext.h>
#include <unistd.h>
#include <stdlib.h>
namespace vt {
struct VClock { volatile uint64_t now, step, reads; void (*volatile on_read)(bool stop); };
inline thread_local VClock tl_clock __attribute__((tls_model("initial-exec")));
inline void OnTsc(int sig, siginfo_t*, void* u) {
  auto& g = static_cast<ucontext_t*>(u)->uc_mcontext.gregs; const uint8_t* p = reinterpret_cast<const uint8_t*>(g[REG_RIP]); int len = 0;
  if (p[0] == 0x0F && p[1] == 0x31) len = 2;
  if (p[0] == 0x0F && p[1] == 0x01 && p[2] == 0xF9) len = 3;
  if (!len) { static const char m[] = "memory fault while the clock was scripted\n"; if (write(2, m, sizeof(m) - 1)) {} signal(sig, SIG_DFL); return; }
  tl_clock.reads = tl_clock.reads + 1; if (tl_clock.on_read) tl_clock.on_read(len == 3);
  tl_clock.now = tl_clock.now + tl_clock.step; const uint64_t t = tl_clock.now;
  g[REG_RAX] = int64_t(t & 0xFFFFFFFFu); g[REG_RDX] = int64_t(t >> 32); if (len == 3) g[REG_RCX] = 0; g[REG_RIP] += len;
}
inline bool ScriptClock() {  // once per process
  struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = OnTsc; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr);
  return prctl(PR_SET_TSC, PR_TSC_SIGSEGV) == 0 && prctl(PR_SET_TSC, PR_TSC_ENABLE) == 0;
}
inline void ClockOn() { if (prctl(PR_SET_TSC, PR_TSC_SIGSEGV)) _exit(77); }
inline void ClockOff() { prctl(PR_SET_TSC, PR_TSC_ENABLE); }
}  // namespace vt
#endif
