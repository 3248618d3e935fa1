// Deterministic OpenMP run time for the harness.
// Every logical thread of a parallel region is a coroutine on its own stack; they run
// one after the other, in an order chosen by the harness, and hand over at barriers.
// The schedule is therefore an INPUT of the experiment, not an accident of the machine.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <numeric>
#include <algorithm>
#include <sys/mman.h>
#include <ucontext.h>
#include <vector>
#include <map>
#include "gomp.hpp"

namespace vp { namespace omp {
int num_threads = 4;
unsigned order_seed = 0;              // 0: ascending, otherwise a permutation
void (*region_begin)(int) = nullptr;
void (*region_end)() = nullptr;
void (*thread_switch)(int) = nullptr;
void (*critical)(int enter) = nullptr;
int regions = 0;
static const size_t STK = 1 << 20;
struct Co { ucontext_t ctx; char *stk; bool done; bool at_barrier; std::exception_ptr err; };
static std::vector<Co> co;
static ucontext_t sched;
static int cur = 0, nthr = 1; static bool in_par = false;
static void (*fn_)(void *); static void *data_;
struct Loop { bool init = false; long next, end, incr, chunk; };
static std::vector<long> loop_seq; static std::map<long, Loop> loops; static long single_taken = -1; static std::vector<long> single_seq;
static std::vector<char *> pool;
static void tramp() {
  try { fn_(data_); } catch (...) { co[cur].err = std::current_exception(); }
  co[cur].done = true;
  swapcontext(&co[cur].ctx, &sched);
}
bool on_own_stack(const void *p) {
  return in_par && (const char *)p >= co[cur].stk && (const char *)p < co[cur].stk + STK;
}
int current() { return in_par ? cur : -1; }
static std::vector<int> order(int n, unsigned salt) {
  std::vector<int> o(n); std::iota(o.begin(), o.end(), 0);
  if (order_seed == 1) std::reverse(o.begin(), o.end());
  else if (order_seed) { uint64_t s = order_seed * 0x9E3779B97F4A7C15ull + salt * 7919u + 12345;
    for (int i = n - 1; i > 0; --i) { s = s * 6364136223846793005ull + 1442695040888963407ull; std::swap(o[i], o[(s >> 33) % (i + 1)]); } }
  return o;
}
static void run(void (*fn)(void *), void *data, unsigned n) {
  if (in_par) { fn(data); return; }            // nested regions: one thread
  int k = n ? (int)n : num_threads; if (k < 1) k = 1;
  in_par = true; nthr = k; fn_ = fn; data_ = data; ++regions;
  co.clear(); co.resize(k); loop_seq.assign(k, 0); single_seq.assign(k, 0); loops.clear(); single_taken = -1;
  while ((int)pool.size() < k) pool.push_back((char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  for (int t = 0; t < k; ++t) {
    getcontext(&co[t].ctx); co[t].stk = pool[t]; co[t].done = false; co[t].at_barrier = false;
    co[t].ctx.uc_stack.ss_sp = pool[t]; co[t].ctx.uc_stack.ss_size = STK; co[t].ctx.uc_link = &sched;
    makecontext(&co[t].ctx, tramp, 0);
  }
  if (region_begin) region_begin(k);
  unsigned phase = 0;
  for (;;) {
    bool any = false;
    for (int t : order(k, regions * 31 + phase)) {
      if (co[t].done || co[t].at_barrier) continue;
      any = true; cur = t; if (thread_switch) thread_switch(t);
      swapcontext(&sched, &co[t].ctx);
    }
    if (!any) { bool live = false; for (auto &c : co) if (!c.done) { live = true; c.at_barrier = false; } if (!live) break; ++phase;
      if (region_end) region_end(); if (region_begin) region_begin(k); }
  }
  in_par = false; cur = 0; nthr = 1;
  if (region_end) region_end();
  for (auto &c : co) if (c.err) std::rethrow_exception(c.err);
}
static void barrier() { if (!in_par || nthr == 1) return; co[cur].at_barrier = true; swapcontext(&co[cur].ctx, &sched); if (thread_switch) thread_switch(cur); }
}}
using namespace vp::omp;
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run(fn, data, n); }
void GOMP_barrier() { barrier(); }
void GOMP_critical_start() { if (critical) critical(1); }
void GOMP_critical_end() { if (critical) critical(0); }
void GOMP_critical_name_start(void **) { if (critical) critical(1); }
void GOMP_critical_name_end(void **) { if (critical) critical(0); }
void GOMP_atomic_start() { if (critical) critical(1); }
void GOMP_atomic_end() { if (critical) critical(0); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
bool GOMP_single_start() { long s = single_seq[cur]++; if (!in_par) return true; if (s > single_taken) { single_taken = s; return true; } return false; }
void GOMP_taskwait() {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int) {
  if (cpy) { std::vector<char> b(sz + al); char *a = (char *)(((uintptr_t)b.data() + al - 1) & ~(uintptr_t)(al - 1)); cpy(a, data); fn(a); } else fn(data); }
// work sharing with dynamic-like schedules: one iteration chunk at a time, first come first served
static bool loop_start(long s, long e, long i, long c, long *is, long *ie) {
  long id = loop_seq.empty() ? 0 : loop_seq[cur]++; Loop &l = loops[id];
  if (!l.init) { l.init = true; l.next = s; l.end = e; l.incr = i; l.chunk = c ? c : 1; }
  if ((l.incr > 0 && l.next >= l.end) || (l.incr < 0 && l.next <= l.end)) return false;
  *is = l.next; long ne = l.next + l.chunk * l.incr; if ((l.incr > 0 && ne > l.end) || (l.incr < 0 && ne < l.end)) ne = l.end; *ie = ne; l.next = ne; return true; }
static bool loop_next(long *is, long *ie) { Loop &l = loops[loop_seq.empty() ? 0 : loop_seq[cur] - 1];
  if ((l.incr > 0 && l.next >= l.end) || (l.incr < 0 && l.next <= l.end)) return false;
  *is = l.next; long ne = l.next + l.chunk * l.incr; if ((l.incr > 0 && ne > l.end) || (l.incr < 0 && ne < l.end)) ne = l.end; *ie = ne; l.next = ne; return true; }
#define LOOPS(K) \
 bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
 bool GOMP_loop_##K##_next(long *a, long *b) { return loop_next(a, b); } \
 bool GOMP_loop_ull_##K##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return loop_start(s, e, i, c, (long *)a, (long *)b); } \
 bool GOMP_loop_ull_##K##_next(unsigned long long *a, unsigned long long *b) { return loop_next((long *)a, (long *)b); } \
 void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { \
   struct A { void (*fn)(void *); void *d; long s, e, i, c; } x = {fn, d, s, e, i, c}; \
   run([](void *p) { A *q = (A *)p; Loop &l = loops[0]; if (!l.init) { l.init = true; l.next = q->s; l.end = q->e; l.incr = q->i; l.chunk = q->c ? q->c : 1; } loop_seq[cur] = 1; q->fn(q->d); }, &x, n); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return loop_next(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return loop_next(a, b); }
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
int omp_get_thread_num() { return in_par ? cur : 0; }
int omp_get_num_threads() { return in_par ? nthr : 1; }
int omp_get_max_threads() { return num_threads; }
int omp_get_num_procs() { return num_threads; }
int omp_in_parallel() { return in_par; }
void omp_set_num_threads(int) {}      // the harness decides
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
double omp_get_wtime() { return 0; }
int omp_get_level() { return in_par; }
int omp_get_thread_limit() { return 1 << 16; }
void omp_init_lock(void *) {} void omp_destroy_lock(void *) {}
void omp_set_lock(void *) { if (critical) critical(1); } void omp_unset_lock(void *) { if (critical) critical(0); }
}
