// Shared by the profiler driver and the translation units that repeat its zone names.
#ifndef VERIF_TOOLS_PROFILER_H_
#define VERIF_TOOLS_PROFILER_H_
#define PROFILER_ENABLED 1
#define PROFILER_THREAD_STORAGE 1ULL
#include "hwy/profiler.h"
namespace vt {
void ModelEnter(const char* name);
void ModelExit();
void Body();
struct Scope { explicit Scope(const char* name) { ModelEnter(name); } ~Scope() { ModelExit(); } };
using Fn = void (*)();
extern Fn kUnit1[10], kUnit2[10];
}  // namespace vt
#endif
