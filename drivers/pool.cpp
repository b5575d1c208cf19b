// the pool behind pooled_fixedsize_stack
#include "ctx.h"
#include <boost/context/pooled_fixedsize_stack.hpp>
typedef ctx::pooled_fixedsize_stack P;
static int storages() { return vf_kind_count("heap"); }
struct Body {
    Tr<N_callable> t;
    H operator()(H&& in) {
        t.use_value();
        H h = std::move(in);
        while (vf_choose(2)) { vf_point(1); Tr<N_local> l; h = resume(h); }
        return h;
    }
};
struct Keep : Body { P p; explicit Keep(P const& o) : p(o) {} };
// allocator copies in contexts: the client's own copy may die at any time
static H back(H&& h) { return std::move(h); }
extern "C" void drv_pool() {
    { H w = make_ctx(VAlloc(), back); if (w) w = resume(w); }   // registers the thread
    int base = storages();
    {
        H a, b;
        {
            P* p = new P(32768);
            vf_check(storages() > base, "C12: the pool exists while a copy of the allocator exists");
            switch (vf_choose(5)) {
            case 0: a = make_ctx(*p, Body()); break;
            case 1: { Body c; a = make_ctx(P(*p), c); break; }
            case 2: a = make_ctx(std::move(*p), Body()); break;
            case 3: { ctx::stack_context s = p->allocate(); a = make_ctx(ctx::preallocated(s.sp, s.size, s), *p, Body()); break; }
            default: a = make_ctx(*p, Keep(*p)); break;
            }
            delete p;
        }
        while (a) { vf_point(0); if (vf_choose(2)) a = resume(a); else a = H(); }
        a = H();
    }
    vf_check(vf_kind_count("chunk") == 0, "C12: the pool goes with the last copy of the allocator");
    vf_check(storages() == base, "C12: the pool goes with the last copy of the allocator");
}
// copies, assignments, moves without contexts
extern "C" void drv_pool_copy() {
    int base = storages();
    {
        P a(32768);
        int one = storages();
        P b(a);
        vf_check(storages() == one, "C12: copies share one pool");
        P c(std::move(b));
        P d(65536);
        ctx::stack_context s = a.allocate();
        switch (vf_choose(5)) {
        case 0: d = a; vf_check(storages() == one, "C12: a pool without allocator copies is destroyed"); break;
        case 1: d = std::move(c); break;
        case 2: { P& r = a; a = r; break; }
        case 3: { P t(a); d = t; break; }
        default: break;
        }
        switch (vf_choose(2)) { case 0: a.deallocate(s); break; default: { P u(a); u.deallocate(s); } }
        ctx::stack_context q = d.allocate();
        d.deallocate(q);
    }
    vf_check(storages() == base && vf_kind_count("chunk") == 0, "C12: the pool goes with the last copy of the allocator");
}
// copies on several threads: the reference count must synchronise
static P* shared;
static void worker(void* v) {
    P mine(*static_cast<P*>(v));
    vf_yield(0);
    ctx::stack_context s = mine.allocate();
    vf_yield(0);
    mine.deallocate(s);
}
extern "C" void drv_pool_thread() {
    int base = storages();
    P* p = new P(32768);
    int t = vf_spawn(worker, p);
    vf_yield(t);
    if (vf_choose(2)) { vf_yield(t); }
    delete p;
    while (!vf_done(t)) vf_yield(t);
    vf_check(storages() == base && vf_kind_count("chunk") == 0, "C12: the pool goes with the last copy of the allocator");
}
