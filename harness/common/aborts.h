// An unexpected HWY_ABORT/HWY_ASSERT/HWY_DASSERT inside a monitored call is a
// violation, keyed by the file it came from (the detail has line and message).
#ifndef VERIF_COMMON_ABORTS_H_
#define VERIF_COMMON_ABORTS_H_
#include "report.h"
#include "hwy/base.h"
namespace vt {
inline std::string& AbortContext() { static thread_local std::string s; return s; }
inline void OnAbort(const char* file, int line, const char* msg) {
  std::string f = file; const size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
  Rep().Viol("abort in " + f + (AbortContext().empty() ? "" : " during " + AbortContext().substr(0, AbortContext().find('|'))), Fmt("%s:%d: %s [%s]", file, line, msg, AbortContext().c_str()));
  Rep().Finish();
}
inline void WatchAborts() { hwy::SetAbortFunc(&OnAbort); }
}  // namespace vt
#endif
