// Stress + monitor for ThreadPool (P10: exactly once, valid worker, returns after
// all; P11: memory visibility, data races via TSan, memory errors via ASan).
#include "../common/report.h"
#include "../common/watch.h"
#include "chaos_atomic.h"
#include <string.h>
#include <map>
#include <cmath>
#include <cstdio>
#define atomic chaos_atomic
#include "hwy/contrib/thread_pool/futex.h"
#include "hwy/contrib/thread_pool/spin.h"
#include "hwy/contrib/thread_pool/thread_pool.h"
#undef atomic
namespace vt {
constexpr auto kRlx = std::memory_order_relaxed;  // no happens-before edges from the monitor
static uint64_t Tid() { static std::atomic<uint64_t> n{1}; static thread_local uint64_t id = n.fetch_add(1, kRlx); return id; }
struct PoolMon;
// State of one monitored Run; kept until the pool is gone so late calls are seen.
struct RunMon {
  uint64_t begin, end; uint64_t n;
  std::unique_ptr<std::atomic<uint32_t>[]> hits;
  std::atomic<uint32_t> started{0}, finished{0}, outside{0}, late{0}, badworker{0}, shared{0};
  std::atomic<bool> closed{false};
  std::atomic<uint64_t> example{0};
  // Plain data: ordered by the pool alone.
  uint64_t before = 0;                   // written by the caller before Run
  std::vector<uint64_t> out;             // written by tasks, read by caller / later tasks
  std::vector<uint64_t> perworker;       // written by every call with that worker index
  const RunMon* prev = nullptr;
  std::atomic<uint32_t> badread{0};
};
struct PoolMon {
  std::unique_ptr<std::atomic<uint64_t>[]> busy{new std::atomic<uint64_t>[128]()};
  std::vector<std::unique_ptr<RunMon>> runs;
  size_t workers = 1;
};
static std::atomic<uint64_t> g_calls{0}, g_runs{0}, g_stolen{0}, g_pools{0}, g_switches{0}, g_nested{0}, g_tuned{0};
static std::string Mode(hwy::ThreadPool& p) { return p.config().ToString(); }
static void TaskDelay(int style, uint64_t task, size_t worker, uint64_t salt) {
  const uint64_t h = Mix(salt, task * 131 + (style == 4 ? 0 : worker));
  switch (style) {
    case 0: break;
    case 1: for (volatile uint32_t i = 0; i < (h & 255); ++i) {} break;
    case 2: if ((h & 7) == 0) sched_yield(); break;
    case 3: if (worker == (salt & 3)) { timespec t{0, long(h % 200000)}; nanosleep(&t, nullptr); } break;
    case 4: if ((h & 15) == 0) { timespec t{0, long(h % 300000)}; nanosleep(&t, nullptr); } break;
    case 5: for (volatile uint32_t i = 0; i < ((task & 31) == 0 ? 20000u : 10u); ++i) {} break;
  }
}
// Deliberately heap-allocated and never freed before the pool: a call after Run
// returned still finds valid memory and is recorded.
struct TaskFn {
  RunMon* m; PoolMon* pm; int style; uint64_t salt; hwy::ThreadPool* nest;
  void operator()(uint64_t task, size_t worker) const {
    g_calls.fetch_add(1, kRlx);
    Chaos::MyWorker() = int(worker);
    if (m->closed.load(kRlx)) { m->late.fetch_add(1, kRlx); m->example.store(task, kRlx); return; }
    const uint64_t off = task - m->begin;
    if (off >= m->n) {
      m->example.store(task, kRlx);
      if (m->outside.fetch_add(1, kRlx) > 2000) {  // the pool may never come back
        Rep().Viol("ThreadPool/task-outside-range", Fmt("begin=%llu end=%llu got task %llu", (unsigned long long)m->begin, (unsigned long long)m->end, (unsigned long long)task));
        Rep().Finish();
      }
      return;
    }
    m->started.fetch_add(1, kRlx);
    if (worker >= pm->workers) { m->badworker.fetch_add(1, kRlx); m->example.store(worker, kRlx); m->finished.fetch_add(1, kRlx); m->hits[off].fetch_add(1, kRlx); return; }
    if (pm->busy[worker].exchange(Tid(), kRlx) != 0) m->shared.fetch_add(1, kRlx);
    m->hits[off].fetch_add(1, kRlx);
    // Visibility of what happened before.
    if (m->before != Mix(salt, m->n)) m->badread.fetch_add(1, kRlx);
    if (m->prev && !m->prev->out.empty()) { const size_t i = (off * 7 + worker) % m->prev->out.size(); if (m->prev->out[i] != Mix(m->prev->before, i)) m->badread.fetch_add(1, kRlx); }
    m->perworker[worker] += off + 1;
    TaskDelay(style, task, worker, salt);
    if (nest && off == 1) { uint64_t seen = 0; nest->Run(77, 78, [&](uint64_t t, size_t w) { seen += (t == 77) + 2 * (w == 0); }); if (seen != 3) m->badread.fetch_add(1, kRlx); g_nested.fetch_add(1, kRlx); }
    m->out[off] = Mix(m->before, off);
    pm->busy[worker].store(0, kRlx);
    m->finished.fetch_add(1, kRlx);
  }
};
static void CheckRun(RunMon& m, PoolMon& pm, const std::string& desc, uint32_t finished_at_return) {
  Report& R = Rep();
  uint64_t missing = 0, dup = 0, ex = 0;
  for (uint64_t i = 0; i < m.n; ++i) { const uint32_t h = m.hits[i].load(kRlx); if (h == 0) { ++missing; ex = i; } if (h > 1) { ++dup; ex = i; } }
  R.Check(!missing, "ThreadPool/task-missing", "%s: %llu of %llu tasks not run, e.g. offset %llu", desc.c_str(), (unsigned long long)missing, (unsigned long long)m.n, (unsigned long long)ex);
  R.Check(!dup, "ThreadPool/task-repeated", "%s: %llu tasks run more than once, e.g. offset %llu", desc.c_str(), (unsigned long long)dup, (unsigned long long)ex);
  R.Check(finished_at_return == m.started.load(kRlx) && finished_at_return == m.n, "ThreadPool/returned-early", "%s: %u of %llu calls finished when Run returned", desc.c_str(), finished_at_return, (unsigned long long)m.n);
  R.Check(!m.outside.load(kRlx), "ThreadPool/task-outside-range", "%s: %u calls, e.g. task %llu", desc.c_str(), m.outside.load(kRlx), (unsigned long long)m.example.load(kRlx));
  R.Check(!m.badworker.load(kRlx), "ThreadPool/worker-out-of-range", "%s: worker %llu of %zu", desc.c_str(), (unsigned long long)m.example.load(kRlx), pm.workers);
  R.Check(!m.shared.load(kRlx), "ThreadPool/worker-shared", "%s: %u calls began while the same worker index was in use", desc.c_str(), m.shared.load(kRlx));
  R.Check(!m.badread.load(kRlx), "ThreadPool/stale-data", "%s: %u tasks saw old values", desc.c_str(), m.badread.load(kRlx));
  for (uint64_t i = 0; i < m.n; ++i) if (m.out[i] != Mix(m.before, i)) { R.Viol("ThreadPool/stale-result", desc + Fmt(" task result %llu not visible to the caller", (unsigned long long)i)); break; }
  uint64_t sum = 0; for (uint64_t v : m.perworker) sum += v;
  R.Check(sum == m.n * (m.n + 1) / 2, "ThreadPool/worker-state-lost", "%s: per-worker sums %llu expected %llu", desc.c_str(), (unsigned long long)sum, (unsigned long long)(m.n * (m.n + 1) / 2));
}
struct Driver {
  Rng g;
  bool chaos;
  explicit Driver(uint64_t seed, bool c) : g(seed), chaos(c) {}
  std::unordered_set<uint64_t> seen;
  void OneRun(hwy::ThreadPool& pool, PoolMon& pm, uint64_t begin, uint64_t n, int style, bool old_api) {
    auto m = std::make_unique<RunMon>();
    m->begin = begin; m->n = n; m->end = begin + n;
    m->hits.reset(new std::atomic<uint32_t>[n + 1]());
    m->out.assign(n, 0); m->perworker.assign(pm.workers, 0);
    m->prev = pm.runs.empty() ? nullptr : pm.runs.back().get();
    const uint64_t salt = g();
    m->before = Mix(salt, n);
    // Tests the public contract only: same closure type for every run.
    TaskFn* fn = new TaskFn{m.get(), &pm, style, salt, g.below(8) == 0 ? &pool : nullptr};
    fns.emplace_back(fn);
    const std::string cfg = Mode(pool);
    const std::string desc = Fmt("workers=%zu begin=%llu n=%llu style=%d config=[%s]", pm.workers, (unsigned long long)begin, (unsigned long long)n, style, cfg.c_str());
    const uint64_t t0 = Chaos::Trace().load(kRlx);
    {
      Watched w("ThreadPool::Run|%s", desc.c_str());
      if (old_api) { size_t arg = 0; const bool r = pool.Run(begin, begin + n, [&](size_t k) { arg = k; return true; }, *fn); Rep().Check(r && arg == pool.NumWorkers(), "ThreadPool/init-closure", "%s", desc.c_str()); }
      else pool.Run(begin, begin + n, *fn);
    }
    const uint32_t fin = m->finished.load(kRlx);
    m->closed.store(true, kRlx);
    Rep().Eval(); g_runs.fetch_add(1, kRlx);
    CheckRun(*m, pm, desc, fin);
    uint64_t h = Mix(pm.workers, n);
    if (chaos) h = Mix(h, Chaos::Trace().load(kRlx) ^ t0);
    else for (uint64_t v : m->perworker) h = Mix(h, v);
    if (n > 1 && pm.workers > 1) seen.insert(h);
    if (g.below(400) == 0) Rep().Sample(desc + Fmt(" -> %u calls, per-worker sums of %zu workers ok", fin, m->perworker.size()));
    pm.runs.push_back(std::move(m));
  }
  std::vector<std::unique_ptr<TaskFn>> fns;
  uint64_t PickN(size_t W) {
    switch (g.below(12)) {
      case 0: return 0; case 1: return 1; case 2: return 2; case 3: return W - 1; case 4: return W; case 5: return W + 1;
      case 6: return 2 * W; case 7: return 1 + g.below(3 * W); case 8: return 1 + g.below(W); case 9: return W * 4 + g.below(W);
      case 10: return g.below(300); default: return W + 1 + g.below(40);
    }
  }
  // A pool's whole life.
  void Life(size_t threads, int runs, bool spin_ok) {
    Watched w("ThreadPool lifetime|threads=%zu runs=%d", threads, runs);
    PoolMon pm;
    g_pools.fetch_add(1, kRlx);
    auto* storage = static_cast<hwy::ThreadPool*>(aligned_alloc(HWY_ALIGNMENT, (sizeof(hwy::ThreadPool) + HWY_ALIGNMENT - 1) / HWY_ALIGNMENT * HWY_ALIGNMENT));
    memset(static_cast<void*>(storage), 0xEE, sizeof(hwy::ThreadPool));  // no help from zeroed memory
    hwy::ThreadPool* pool = new (storage) hwy::ThreadPool(threads);
    pm.workers = pool->NumWorkers();
    const size_t want = std::min<size_t>(threads, 63) + 1;
    Rep().Check(pm.workers == want, "ThreadPool/num-workers", "threads=%zu NumWorkers=%zu", threads, pm.workers);
    const int pre = int(g.below(4));
    bool spin = false;
    for (int i = 0; i < runs; ++i) {
      if ((i < pre && g.below(2)) || g.below(24) == 0) {
        spin = spin_ok && g.below(2);
        Watched w2("ThreadPool::SetWaitMode|threads=%zu", threads);
        pool->SetWaitMode(spin ? hwy::PoolWaitMode::kSpin : hwy::PoolWaitMode::kBlock);
        g_switches.fetch_add(1, kRlx);
      }
      uint64_t n = PickN(pm.workers), begin = 0;
      switch (g.below(8)) { case 0: begin = g() >> g.below(60); break; case 1: begin = ~0ull - n - g.below(3); break; case 2: begin = (1ull << 32) - n / 2; break; case 3: begin = g.below(1000); break; default: break; }
      if (begin + n < begin) begin = 5;
      OneRun(*pool, pm, begin, n, int(g.below(6)), g.below(10) == 0);
      if (g.below(64) == 0) {  // initialisation refused: nothing runs
        int calls = 0; const bool r = pool->Run(0, 5, [](size_t) { return false; }, [&](uint64_t, size_t) { ++calls; });
        Rep().Check(!r && calls == 0, "ThreadPool/init-refused", "threads=%zu returned %d calls %d", threads, int(r), calls);
      }
    }
    if (pool->AutoTuneComplete()) g_tuned.fetch_add(1, kRlx);
    { Watched w3("ThreadPool::~ThreadPool|threads=%zu", threads); pool->~ThreadPool(); }
    free(storage);
    // Calls that arrived after their Run had returned.
    for (auto& m : pm.runs) Rep().Check(!m->late.load(kRlx), "ThreadPool/call-after-return", "workers=%zu n=%llu: %u calls after Run returned, e.g. task %llu", pm.workers, (unsigned long long)m->n, m->late.load(kRlx), (unsigned long long)m->example.load(kRlx));
    for (size_t i = 0; i < pm.workers; ++i) Rep().Check(pm.busy[i].load(kRlx) == 0, "ThreadPool/worker-still-busy", "worker %zu", i);
    fns.clear();
    if (seen.size() > 5000) { Rep().SeeAll(seen); seen.clear(); }
  }
};
// One worker lags far behind the others while the pool moves through its modes.
static void Straggler(size_t threads, uint64_t seed, int runs) {
  Driver d(seed, true);
  Watched w("ThreadPool straggler|threads=%zu", threads);
  Chaos::Slow() = int(d.g.below(8) ? threads - 1 - d.g.below(std::min<size_t>(threads, 3)) : d.g.below(threads));
  PoolMon pm; auto pool = std::make_unique<hwy::ThreadPool>(threads);
  pm.workers = pool->NumWorkers(); g_pools.fetch_add(1, kRlx);
  for (uint64_t i = seed % 12; i--;) pool->SetWaitMode(hwy::PoolWaitMode::kBlock);
  for (int i = 0; i < runs; ++i) { d.OneRun(*pool, pm, 0, pm.workers - d.g.below(2), 0, false); if (d.g.below(6) == 0) pool->SetWaitMode(hwy::PoolWaitMode::kBlock); }
  pool.reset();
  Chaos::Slow() = -1;
  for (auto& m : pm.runs) Rep().Check(!m->late.load(kRlx), "ThreadPool/call-after-return", "straggler, workers=%zu: %u calls after Run returned", pm.workers, m->late.load(kRlx));
  Rep().SeeAll(d.seen); Rep().Count("straggler pools");
}
// Tuning with few candidates finishes after a bounded number of runs.
static void Tune(size_t threads, bool spin, uint64_t seed) {
  Driver d(seed, false);
  Watched w("ThreadPool tuning|threads=%zu spin=%d", threads, int(spin));
  hwy::ThreadPool pool(threads);
  PoolMon pm; pm.workers = pool.NumWorkers();
  pool.SetWaitMode(spin ? hwy::PoolWaitMode::kSpin : hwy::PoolWaitMode::kBlock);
  int runs = 0;
  for (; runs < 20000 && !pool.AutoTuneComplete(); ++runs) { d.OneRun(pool, pm, 0, 2 * pm.workers, 0, false); if (pm.runs.size() > 4) pm.runs.erase(pm.runs.begin(), pm.runs.end() - 2); }
  Rep().Check(pool.AutoTuneComplete(), "ThreadPool/tuning-never-finishes", "threads=%zu spin=%d runs=%d", threads, int(spin), runs);
  const std::string best = Mode(pool);
  for (int i = 0; i < 20; ++i) d.OneRun(pool, pm, 0, 3 * pm.workers, 0, false);
  if (pm.workers > 1) Rep().Check(Mode(pool) == best, "ThreadPool/config-changes-after-tuning", "%s -> %s", best.c_str(), Mode(pool).c_str());
  bool known = false;
  for (const auto& c : hwy::pool::Config::AllCandidates(spin ? hwy::PoolWaitMode::kSpin : hwy::PoolWaitMode::kBlock, threads)) known |= c.ToString() == best;
  Rep().Check(known, "ThreadPool/config-not-a-candidate", "%s", best.c_str());
  Rep().Max("max runs until tuned", uint64_t(runs)); Rep().Count("tunings completed");
}
}  // namespace vt
int main(int argc, char** argv) {
  using namespace vt;
  Report& R = Rep(); R.Parse(argc, argv);
  StartWatchdog(90);
  const double scale = (getenv("VT_SCALE") ? atof(getenv("VT_SCALE")) : 1) * (R.thorough ? 6 : 1);
  Chaos::Seed() = R.seed;
  auto reps = [&](int n) { return std::max(1, int(n * scale)); };
  if (R.Want("stress")) {
    // Small pools, several at once, spinning allowed.
    for (int level = 0; level <= 3; ++level) {
      Chaos::Level() = level;
      for (int r = 0; r < reps(level == 3 ? 3 : 6); ++r) {
        std::vector<std::thread> th;
        for (int k = 0; k < 3; ++k) th.emplace_back([&, k] {
          Driver d(Mix(R.seed, uint64_t(level * 1000 + r * 10 + k)), level > 0);
          d.Life(d.g.below(5), 25 + int(d.g.below(60)), k == 0);
          R.SeeAll(d.seen);
        });
        for (auto& t : th) t.join();
      }
      Driver d(Mix(R.seed, uint64_t(level + 77)), level > 0);
      for (int r = 0; r < reps(30); ++r) d.Life(d.g.below(9), int(d.g.below(3)), false);   // construct / destroy
      for (int r = 0; r < reps(4); ++r) d.Life(2 + d.g.below(6), 60, true);
      for (int r = 0; r < reps(3); ++r) d.Life(9 + d.g.below(24), 25, false);
      R.SeeAll(d.seen);
    }
    Chaos::Level() = 0;
    for (size_t t : {1, 2, 4}) for (int spin = 0; spin < (t < 4 ? 2 : 1); ++spin) Tune(t, spin, R.seed + t);
  }
  if (R.Want("big")) for (int level = 0; level <= 2; ++level) {
    Chaos::Level() = level;
    Driver d(Mix(R.seed, uint64_t(level + 99)), level > 0);
    for (size_t t : {63, 62, 61, 60, 63, 64, 63}) for (int r = 0; r < reps(2); ++r) d.Life(t, 14, false);
    R.SeeAll(d.seen);
  }
  if (R.Want("straggler")) {
    for (int r = 0; r < reps(20); ++r) for (size_t t : {r % 4 == 3 ? size_t{62} : size_t{63}}) Straggler(t, Mix(R.seed, uint64_t(r) * 64 + t) / 12 * 12 + (R.seed + r) % 12, 10);
    for (int r = 0; r < reps(2); ++r) for (size_t t : {2, 3, 4, 7, 9, 20}) Straggler(t, Mix(R.seed, uint64_t(r) * 64 + t), 8);
  }
  R.counters["pools created"] = g_pools; R.counters["monitored runs"] = g_runs; R.counters["task calls observed"] = g_calls; R.counters["mode switches"] = g_switches;
  R.counters["nested runs"] = g_nested; R.counters["atomic operations observed"] = Chaos::Ops(); R.counters["delays injected"] = Chaos::Delays(); R.counters["pools tuned during stress"] = g_tuned;
  return R.Write();
}
