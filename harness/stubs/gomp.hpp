#ifndef VP_GOMP_HPP
#define VP_GOMP_HPP
namespace vp { namespace omp {
extern int num_threads;
extern unsigned order_seed;
extern int regions;
extern void (*region_begin)(int);
extern void (*region_end)();
extern void (*thread_switch)(int);
extern void (*critical)(int enter);
bool on_own_stack(const void *p);
int current();
}}
#endif
