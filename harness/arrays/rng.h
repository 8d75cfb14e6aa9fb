#ifndef VERIF_RNG_H_
#define VERIF_RNG_H_
#include <stddef.h>
#include <stdint.h>
#include <vector>
namespace vt {
enum RngOp { kNext, kBatch, kArray, kUniform, kUniformBatch, kUniformArray, kRngOps };
struct RngApi {
  const char* target; size_t lanes; bool f64;
  void* (*create)(uint64_t seed, uint64_t thread); void (*destroy)(void*);
  // Appends the values; |n| is used by the batch calls, and selects one of kArraySizes for the array calls.
  void (*run)(void*, int op, size_t n, std::vector<uint64_t>& u, std::vector<double>& f);
  void (*state)(void*, std::vector<uint64_t>& s);  // [j * lanes + lane]
  uint64_t (*state_size)(void*);
  // Buffered generator, cache sizes 2^k.
  void* (*ccreate)(int k, uint64_t seed, uint64_t thread); uint64_t (*cnext)(void*, int k); void (*cdestroy)(void*, int k);
  // Scalar generator: seed, thread, number of long jumps, then n values (and n uniforms).
  void (*scalar)(uint64_t seed, uint64_t thread, int longs, size_t n, std::vector<uint64_t>& u, std::vector<double>& f, std::vector<uint64_t>& s);
};
constexpr size_t kArraySizes[] = {1, 2, 3, 7, 8, 9, 16, 31, 64, 100};
constexpr size_t kNumArraySizes = sizeof(kArraySizes) / sizeof(kArraySizes[0]);
std::vector<RngApi>& RngApis();
}  // namespace vt
#endif
