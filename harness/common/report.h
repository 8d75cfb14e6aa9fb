// Shared by all drivers: deterministic RNG, option parsing, and the report every
// driver writes (events observed, distinct behaviours, samples, violations).
// No Highway code here.
#ifndef VERIF_COMMON_REPORT_H_
#define VERIF_COMMON_REPORT_H_
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <atomic>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <unistd.h>

namespace vt {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t operator()() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return (*this)() % n; }
  double unit() { return double((*this)() >> 11) * 0x1p-53; }
};
inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9ull;
  return h ^ (h >> 27);
}
inline uint64_t HashBytes(uint64_t h, const void* p, size_t n) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001B3ull;
  return h ^ (h >> 29);
}
inline std::string Fmt(const char* f, ...) {
  char buf[2048];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof(buf), f, ap); va_end(ap);
  return buf;
}
struct Report {
  uint64_t seed = 1;
  bool thorough = false;
  int threads = 8;
  std::string out, only;
  std::atomic<uint64_t> evaluations{0};
  std::mutex mu;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  std::map<std::string, std::string> violations;
  std::set<std::string> targets, skipped;
  bool note_cap = false;

  void Parse(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
      const std::string k = argv[i], v = argv[i + 1];
      if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
      if (k == "--tier") thorough = v == "thorough";
      if (k == "--out") out = v;
      if (k == "--only") only = v;
      if (k == "--threads") threads = atoi(v.c_str());
    }
  }
  bool Want(const std::string& name) const { return only.empty() || name.find(only) == 0; }
  void Eval(uint64_t n = 1) { evaluations += n; }
  // A distinct behaviour/state observed (hash). Capped to bound memory.
  void See(uint64_t h) {
    std::lock_guard<std::mutex> l(mu);
    if (distinct.size() < 4000000) distinct.insert(h);
  }
  void SeeAll(const std::unordered_set<uint64_t>& s) {
    std::lock_guard<std::mutex> l(mu);
    for (uint64_t h : s) if (distinct.size() < 4000000) distinct.insert(h);
  }
  void Count(const std::string& k, uint64_t n = 1) { std::lock_guard<std::mutex> l(mu); counters[k] += n; }
  void Max(const std::string& k, uint64_t n) { std::lock_guard<std::mutex> l(mu); if (counters[k] < n) counters[k] = n; }
  void Sample(const std::string& s) { std::lock_guard<std::mutex> l(mu); if (samples.size() < 12) samples.push_back(s); }
  // |key| identifies the specific input/call site class; first detail kept.
  void Viol(const std::string& key, const std::string& detail) {
    std::lock_guard<std::mutex> l(mu);
    if (violations.size() < 400) violations.emplace(key, detail);
  }
  bool Check(bool ok, const std::string& key, const char* f, ...) {
    if (ok) return true;
    char buf[1024];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof(buf), f, ap); va_end(ap);
    Viol(key, buf);
    return false;
  }
  static std::string Esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
      else if (c < 32 || c > 126) o += Fmt("\\u%04x", c);
      else o += char(c);
    }
    return o;
  }
  int Write() {
    std::lock_guard<std::mutex> l(mu);
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"counters\":{", (unsigned long long)evaluations.load(), distinct.size());
    bool c = false;
    for (auto& kv : counters) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", Esc(kv.first).c_str(), (unsigned long long)kv.second); c = true; }
    auto list = [&](const char* n, const std::set<std::string>& s) { fprintf(f, "\"%s\":[", n); bool q = false; for (auto& x : s) { fprintf(f, "%s\"%s\"", q ? "," : "", Esc(x).c_str()); q = true; } fprintf(f, "],"); };
    fprintf(f, "},"); list("targets", targets); list("targets_unsupported_here", skipped);
    fprintf(f, "\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", Esc(samples[i]).c_str());
    fprintf(f, "],\"violations\":["); c = false;
    for (auto& v : violations) { fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\"}", c ? ",\n" : "", Esc(v.first).c_str(), Esc(v.second).c_str()); c = true; }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f); else fflush(stdout);
    return 0;
  }
  // Ends the process without running destructors (used after faults).
  [[noreturn]] void Finish() { int r = Write(); fflush(nullptr); _exit(r); }
};
// Quick-tier amount of work, scaled by VT_SCALE.
inline int Quick(int n) { const char* sc = getenv("VT_SCALE"); const int r = int(n * (sc ? atof(sc) : 1.0)); return r < 1 ? 1 : r; }
inline Report& Rep() { static Report* r = new Report; return *r; }
}  // namespace vt
#endif
