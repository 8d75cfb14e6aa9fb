#ifndef VERIF_OPS_MEM_H_
#define VERIF_OPS_MEM_H_
#include <map>
#include <string>
namespace vt { std::map<std::string, int>& MemMightFault(); }
#endif
