// contexts that move between threads
#define VF_NO_LANDED
#include "ctx.h"
struct G { H a; H b; int stop; int busy; const void* self[3]; int tid[3]; int n; };
static G* gp;
#define g (*gp)
static H spawn_ctx();
// whoever resumed this context: the thread's main context or another context of the same thread
static bool here(H& h) {
    const void* d = vf_denotes(&h);
    return d == g.self[vf_thread()];
}
struct Body {
    Tr<N_callable> t;
    H operator()(H&& in) {
        t.use_value();
        H h = std::move(in);
        Tr<N_local> l0;
        for (;;) {
            vf_check(static_cast<bool>(h) && here(h), "C14: a handle given to a resumed context denotes the context that just suspended on the same thread");
            vf_point(1);
            switch (vf_choose(4)) {
            case 0: h = resume(h); break;
            case 1: {
                // a context of its own, used and dropped on the thread that executes
                const void* was = g.self[vf_thread()];
                g.self[vf_thread()] = vf_self();
                { H c = spawn_ctx(); if (c && vf_choose(2)) c = resume(c); vf_check(vf_self() == g.self[vf_thread()], "C14: the running context is the one that executes"); }
                g.self[vf_thread()] = was;
                break;
            }
            case 2: { int before = vf_thread(); (void)before; Tr<N_local> l1; H o = resume(h); h = std::move(o); l1.use(); break; }
            default: return h;
            }
            l0.use();
        }
    }
};
struct Leaf {
    Tr<N_callable> t;
    H operator()(H&& in) { t.use_value(); Tr<N_local> l; H h = std::move(in); vf_check(here(h), "C14: a handle given to a resumed context denotes the context that just suspended on the same thread"); if (vf_choose(2)) h = resume(h); return h; }
};
static H spawn_ctx() { return make_ctx(VAlloc(), Leaf()); }
static void use(H& a) {
    switch (vf_choose(4)) {
    case 0: if (!a) vf_end(); a = resume(a); break;
    case 1: a = H(); break;
    case 2: if (a || g.n >= 1) vf_end(); g.n++; a = make_ctx(VAlloc(), Body()); break;
    default: { H c = spawn_ctx(); if (c) c = resume(c); } break;
    }
    vf_check(vf_self() == g.self[vf_thread()], "C14: the running context is the one that executes");
}
static void worker(void*) {
    g.self[vf_thread()] = vf_self();
    for (;;) {
        vf_yield(0);
        vf_point(2);
        if (g.stop) return;
        use(g.a);
    }
}
extern "C" void drv_thread() {
    G gg; gp = &gg;
    g.stop = 0; g.n = 0;
    g.self[0] = vf_self();
    int t = vf_spawn(worker, nullptr);
    vf_yield(t);
    for (;;) {
        vf_point(0);
        switch (vf_choose(3)) {
        case 0: vf_yield(t); break;
        case 1: use(g.a); break;
        default: g.stop = 1; break;
        }
        if (g.stop) break;
    }
    while (!vf_done(t)) vf_yield(t);
    vf_check(vf_self() == g.self[0], "C14: the running context is the one that executes");
    if (g.a && vf_choose(2)) g.a = resume(g.a);
    g.a = H();
    vf_check(vf_count("callable") == 0, "C07: the callable of a finished context is destroyed");
    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}
// the resumer's thread is found again inside an injected function and an unwinding
static void kill(void* v) {
    g.self[vf_thread()] = vf_self();
    H& a = *static_cast<H*>(v);
    switch (vf_choose(3)) {
    case 0: a = H(); break;
    case 1: { const void* me = vf_self(); a = resume_with(a, [me](H&& r) { vf_check(vf_denotes(&r) == me, "C14: a handle given to a resumed context denotes the context that just suspended on the same thread"); return std::move(r); }); break; }
    default: a = resume(a); if (a) a = resume(a); break;
    }
    vf_check(vf_self() == g.self[vf_thread()], "C14: the running context is the one that executes");
}
extern "C" void drv_thread_kill() {
    G gg; gp = &gg;
    g.n = 0; g.stop = 0;
    g.self[0] = vf_self();
    H a = make_ctx(VAlloc(), Body());
    if (vf_choose(2) && a) a = resume(a);
    if (!a) vf_end();
    int t = vf_spawn(kill, &a);
    vf_yield(t);
    vf_check(vf_done(t), "C14: the thread ends");
    if (a && vf_choose(2)) a = resume(a);
    a = H();
}
