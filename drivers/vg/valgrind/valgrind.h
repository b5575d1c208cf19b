// stands in for valgrind's client requests: the analysis follows the registrations
#ifndef VF_VALGRIND_H
#define VF_VALGRIND_H
extern "C" {
unsigned vf_vg_register(const void*, const void*);
void vf_vg_deregister(unsigned);
int vf_vg_covers(unsigned id, const void* lo, const void* hi);
}
#define VALGRIND_STACK_REGISTER(a, b) vf_vg_register((a), (b))
#define VALGRIND_STACK_DEREGISTER(i) vf_vg_deregister(i)
#define VALGRIND_STACK_CHANGE(i, a, b) vf_vg_change((i), (a), (b))
#endif
