#define VF_NO_LANDED
#include "ctx.h"
// handles that live as long as their thread, or as the program
static H& of_thread() { thread_local H h; return h; }
static H& of_program() { static H h; return h; }
struct Stays {
    Tr<N_callable> t;
    H operator()(H&& in) { Tr<N_local> l; H h = std::move(in); for (;;) { vf_point(1); h = resume(h); } }
};
struct Leaf2 {
    Tr<N_callable> t;
    H operator()(H&& in) { Tr<N_local> l; return std::move(in); }
};
static void lasting() {
    if (vf_choose(2)) { H c = make_ctx(VAlloc(), Leaf2()); if (c) c = resume(c); }
    switch (vf_choose(3)) {
    case 0: break;
    case 1: { H& k = of_thread(); k = make_ctx(VAlloc(), Stays()); if (vf_choose(2)) k = resume(k); break; }
    default: { if (vf_thread()) vf_end(); H& k = of_program(); k = make_ctx(VAlloc(), Stays()); if (vf_choose(2)) k = resume(k); break; }
    }
}
static void lasting_thread(void*) { lasting(); }
extern "C" void drv_thread_lasting() {
    vf_opt("atexit", 1);
    if (vf_choose(2)) {
        int t = vf_spawn(lasting_thread, nullptr);
        vf_yield(t);
        vf_check(vf_done(t), "C14: the thread ends");
    } else
        lasting();
}
