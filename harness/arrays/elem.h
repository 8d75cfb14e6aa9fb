// Elements of any lane type as integers.
#ifndef VERIF_ELEM_H_
#define VERIF_ELEM_H_
#include "arr.h"
namespace vt {
inline size_t TySize(int t) { static const size_t s[] = {1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 2, 2}; return s[t]; }
template <class T> inline void PutT(void* p, int64_t v) { T t = static_cast<T>(v); memcpy(p, &t, sizeof t); }
// Wraps modulo the width of integer types; floats are exact for the small values used.
inline void PutEl(int ty, void* base, size_t i, int64_t v) {
  uint8_t* p = static_cast<uint8_t*>(base) + i * TySize(ty);
  switch (ty) {
    case U8: case I8: PutT<uint8_t>(p, v); break; case U16: case I16: PutT<uint16_t>(p, v); break; case U32: case I32: PutT<uint32_t>(p, v); break; case U64: case I64: PutT<uint64_t>(p, v); break;
    case F32: PutT<float>(p, v); break; case F64: PutT<double>(p, v); break;
  }
}
}  // namespace vt
#endif
