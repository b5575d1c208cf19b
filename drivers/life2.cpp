// two contexts and the main context pass their handles around
#include "ctx.h"
// how many contexts are made at most, over the whole history
#ifndef VF_N
#define VF_N 2
#endif
struct G { H gs; H gm; const void* main; int n; int live; };
static G* gp;
#define g (*gp)
// main's handle must survive the unwinding of the context that holds it
struct L {
    H h;
    ~L() { if (h && vf_denotes(&h) == g.main) g.gm = std::move(h); }
};
static H spawn();
struct Body {
    Tr<N_callable> t;
    H operator()(H&& in) {
        landed();
        vf_check(vf_fp() == 0, "C02: a new context starts with its creator's floating-point control words");
        t.use_value();
        const void* me = vf_self();
        L l; l.h = std::move(in);
        Tr<N_local> l0;
        for (;;) {
            if (!l.h && g.gm) l.h = std::move(g.gm);
            vf_check(vf_self() == me, "C01: a context continues on its own stack");
            vf_point(1);
            switch (vf_choose(5)) {
            case 0:
                if (!l.h) vf_end();
                { Tr<N_local> l1; l.h = resume(l.h); vf_check(!l.h || vf_denotes(&l.h) != me, "C03: the delivered handle denotes the context that switched"); }
                break;
            case 1:
                if (!l.h || g.gm) vf_end();
                l.h.swap(g.gs);
                break;
            case 2:
                if (!g.gs) vf_end();
                { H x = std::move(g.gs); x = resume(x); if (g.gs) { if (l.h) { if (x) vf_end(); } else l.h = std::move(x); } else g.gs = std::move(x); }
                break;
            case 3: {
                if (!l.h || vf_denotes(&l.h) == g.main) vf_end();
                const void* d = vf_denotes(&l.h); (void)d;
                l.h = H();
                break; }
            default: {
                if (!l.h) vf_end();
                H r = std::move(l.h);
                g.live--;
                return r;
            }
            }
        }
    }
};
static H spawn() { g.n++; g.live++; return make_ctx(VAlloc(), Body()); }
extern "C" void drv_life2() {
    G gg; gp = &gg;
    g.main = vf_self(); g.n = 0; g.live = 0;
    {
    H h = spawn();
    for (;;) {
        vf_check(vf_self() == g.main, "C01: a context continues on its own stack");
        vf_point(0);
        if (!h && !g.gs) { h = H(); g.gs = H(); vf_check(!g.gm, "C07: nobody holds a handle to the running context"); break; }
        switch (vf_choose(5)) {
        case 0: if (!h) vf_end(); h = resume(h); break;
        case 1: h.swap(g.gs); break;
        case 2: if (!h) vf_end(); h = H(); break;
        case 3: if (g.n == VF_N || g.gs) vf_end(); g.gs = spawn(); break;
        default: if (!h) vf_end(); { H x = std::move(h); x = resume(x); if (h) { vf_end(); } h = std::move(x); } break;
        }
    }
    }
    g.gs = H();
    vf_check(vf_count("callable") == 0, "C07: the callable of a finished context is destroyed");
    vf_check(vf_count("allocator copy") == 0, "C07: the allocator copy of a finished context is destroyed");
    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}
