// Footprint recorder: the compiler's thread-sanitizer instrumentation calls these entry
// points for every memory access of the code under test; inside a parallel region they
// record which logical thread touched which 8-byte word, how, and under which lock.
// Stack of the touching thread, and memory allocated by it inside the region, are private.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>
#include <link.h>
#include "gomp.hpp"
#include "foot.hpp"
namespace vp { namespace foot {
bool enabled = false;
static bool inside = false, busy = false;
static int lock_depth = 0; static const void *lock_id = nullptr;
struct Acc { uint64_t r, w, rl, wl; };            // bit masks of threads: plain read/write, locked read/write
static std::unordered_map<uintptr_t, Acc> *acc;
static std::unordered_map<uintptr_t, const void *> *pc;
static std::vector<Summary> *out;
std::vector<Summary> &summaries() { if (!out) out = new std::vector<Summary>; return *out; }
static std::map<uintptr_t, std::pair<size_t, int>> *heap; // allocated inside the region: owner
static uintptr_t tls_lo, tls_hi;
static int find_tls(struct dl_phdr_info *i, size_t, void *) {
  static bool first = true; if (!first) return 1; first = false;
  for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
    uintptr_t fs; asm("mov %%fs:0,%0" : "=r"(fs)); size_t al = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1;
    tls_hi = fs; tls_lo = fs - ((i->dlpi_phdr[k].p_memsz + al - 1) / al * al); }
  return 1;
}
static void touch(const void *p, size_t n, bool w, const void *ra) {
  if (!enabled || !inside || busy) return;
  if ((uintptr_t)p >= tls_lo && (uintptr_t)p < tls_hi) return;   // thread-local objects are private
  int t = vp::omp::current(); if (t < 0 || vp::omp::on_own_stack(p)) return;
  busy = true;
  uintptr_t a = (uintptr_t)p & ~(uintptr_t)7, e = ((uintptr_t)p + n - 1) & ~(uintptr_t)7;
  uint64_t m = 1ull << (t & 63);
  for (; a <= e; a += 8) { Acc &x = (*acc)[a]; if (lock_depth) { if (w) x.wl |= m; else x.rl |= m; } else { if (w) x.w |= m; else x.r |= m; }
    if (w) (*pc)[a] = ra; }
  busy = false;
}
static int region_no = 0;
static void begin(int) { if (!enabled) return; busy = true; if (!acc) { acc = new std::unordered_map<uintptr_t, Acc>; pc = new std::unordered_map<uintptr_t, const void *>; }
  acc->clear(); pc->clear(); inside = true; ++region_no; busy = false; }
static void end() { if (!enabled || !inside) return; inside = false; busy = true;
  std::map<std::vector<uint64_t>, std::pair<long, uintptr_t>> sig;
  for (auto &x : *acc) { auto &v = sig[{x.second.r, x.second.w, x.second.rl, x.second.wl}]; ++v.first; if (!v.second || x.first < v.second) v.second = x.first; }
  for (auto &s : sig) { Summary u; u.region = region_no; u.r = s.first[0]; u.w = s.first[1]; u.rl = s.first[2]; u.wl = s.first[3]; u.words = s.second.first;
    Dl_info di; auto i = pc->find(s.second.second); if (i != pc->end() && dladdr(i->second, &di) && di.dli_sname) u.where = di.dli_sname;
    summaries().push_back(u); }
  busy = false; }
static void crit(int e) { lock_depth += e ? 1 : -1; }
void install() { dl_iterate_phdr(find_tls, nullptr); vp::omp::region_begin = begin; vp::omp::region_end = end; vp::omp::critical = crit; }
void forget(const void *p, size_t n) {                       // a free or a fresh allocation: a new object
  if (!enabled || !inside || busy || !acc) return; busy = true;
  for (uintptr_t a = (uintptr_t)p & ~(uintptr_t)7; a < (uintptr_t)p + n; a += 8) acc->erase(a);
  busy = false; }
bool recording() { return enabled && inside; }
}}
using namespace vp::foot;
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { touch(p, n, false, RA); } void __tsan_write##n(void *p) { touch(p, n, true, RA); } \
 void __tsan_unaligned_read##n(void *p) { touch(p, n, false, RA); } void __tsan_unaligned_write##n(void *p) { touch(p, n, true, RA); } \
 void __tsan_volatile_read##n(void *p) { touch(p, n, false, RA); } void __tsan_volatile_write##n(void *p) { touch(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { if (n) touch(p, n, false, RA); }
void __tsan_write_range(void *p, unsigned long n) { if (n) touch(p, n, true, RA); }
void __tsan_vptr_update(void **p, void *) { touch(p, 8, true, RA); }
void __tsan_vptr_read(void **p) { touch(p, 8, false, RA); }
// atomics: synchronised by themselves, so they count as locked accesses
#define AT(T, n) \
 T __tsan_atomic##n##_load(const volatile T *p, int) { return *p; } \
 void __tsan_atomic##n##_store(volatile T *p, T v, int) { *p = v; } \
 T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { T o = *p; *p = v; return o; } \
 T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { T o = *p; *p = o + v; return o; } \
 T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { T o = *p; *p = o - v; return o; } \
 T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { T o = *p; *p = o & v; return o; } \
 T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { T o = *p; *p = o | v; return o; } \
 T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { T o = *p; *p = o ^ v; return o; } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int) { T o = *p; if (o == e) *p = v; return o; }
AT(unsigned char, 8) AT(unsigned short, 16) AT(unsigned int, 32) AT(unsigned long, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// the library calls the code makes on shared memory
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { touch(s, n, false, RA); touch(d, n, true, RA); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { touch(s, n, false, RA); touch(d, n, true, RA); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) touch(d, n, true, RA); return __real_memset(d, c, n); }
}
// memory obtained inside a region is not recycled inside it: addresses identify objects
#include <new>
static void *get(size_t n) { size_t *p = (size_t *)malloc(n + 16); if (!p) throw std::bad_alloc(); p[0] = n; return (char *)p + 16; }
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void operator delete(void *p) noexcept { if (!p) return; if (recording()) return; free((char *)p - 16); }
void operator delete[](void *p) noexcept { if (!p) return; if (recording()) return; free((char *)p - 16); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }
