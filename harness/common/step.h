// Runs a function one instruction at a time (trap flag) with CPUID and XGETBV
// emulated from a simulated CPU.
#ifndef VERIF_COMMON_STEP_H_
#define VERIF_COMMON_STEP_H_
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <string.h>
#include <ucontext.h>
namespace vt {
struct CpuModel {
  uint32_t xcr0 = 0;
  virtual ~CpuModel() {}
  virtual void Get(uint32_t leaf, uint32_t sub, uint32_t* r) const = 0;
  virtual bool OsXsave() const = 0;
};
struct Stepper { const CpuModel* cpu; volatile bool on, stop; volatile uint64_t steps, cpuids, xgetbvs; volatile int bad; void (*each)(uint64_t step); };
[[maybe_unused]] static thread_local Stepper tl_step __attribute__((tls_model("initial-exec")));
static void OnTrap(int, siginfo_t*, void* u) {
  auto& g = static_cast<ucontext_t*>(u)->uc_mcontext.gregs; Stepper& s = tl_step; const int err = errno; s.steps = s.steps + 1;
  for (;;) {
    const uint8_t* p = reinterpret_cast<const uint8_t*>(g[REG_RIP]);
    if (s.cpu && p[0] == 0x0F && p[1] == 0xA2) {
      uint32_t r[4]; s.cpu->Get(uint32_t(g[REG_RAX]), uint32_t(g[REG_RCX]), r); g[REG_RAX] = r[0]; g[REG_RBX] = r[1]; g[REG_RCX] = r[2]; g[REG_RDX] = r[3]; g[REG_RIP] += 2; s.cpuids = s.cpuids + 1; continue;
    }
    if (s.cpu && p[0] == 0x0F && p[1] == 0x01 && p[2] == 0xD0) {
      if (!s.cpu->OsXsave()) s.bad = 1;  // would raise #UD on that machine
      g[REG_RAX] = uint32_t(g[REG_RCX]) == 0 ? s.cpu->xcr0 : 0; g[REG_RDX] = 0; g[REG_RIP] += 3; s.xgetbvs = s.xgetbvs + 1; continue;
    }
    break;
  }
  if (s.stop) { g[REG_EFL] &= ~0x100ll; s.on = false; } else if (s.each) s.each(s.steps);
  errno = err;
}
template <class F> __attribute__((noinline)) static auto Stepped(const CpuModel* cpu, void (*each)(uint64_t), F&& f) -> decltype(f()) {
  Stepper& s = tl_step; s.cpu = cpu; s.each = each; s.stop = false; s.bad = 0; s.steps = s.cpuids = s.xgetbvs = 0; s.on = true;
  __asm__ volatile("lea -128(%%rsp),%%rsp\n pushfq\n orq $0x100,(%%rsp)\n popfq\n lea 128(%%rsp),%%rsp" ::: "memory", "cc");
  auto r = f();
  s.stop = true; __asm__ volatile("nop\n nop" ::: "memory");
  while (s.on) __asm__ volatile("nop" ::: "memory");
  return r;
}
static void InstallTrap() { struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = OnTrap; sa.sa_flags = SA_SIGINFO | SA_RESTART; sigaction(SIGTRAP, &sa, nullptr); }
}  // namespace vt
#endif
