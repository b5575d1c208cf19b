// one context, a client that may do anything with its handle
#include "ctx.h"
struct G { int entered, left, made; const void* main; const void* self; };
static G g;
struct Body {
    Tr<N_callable> t;
    H operator()(H&& in) {
        landed();
        vf_check(vf_fp() == 0, "C02: a new context starts with its creator's floating-point control words");
        H h = std::move(in);
        t.use_value();
        vf_check(g.entered == 0, "C21: the context function is called once");
        g.entered = 1;
        g.self = vf_self();
        Tr<N_local> l0;
        for (;;) {
            vf_check(static_cast<bool>(h), "C03: the handle a context receives denotes the suspended resumer");
            vf_check(vf_denotes(&h) == g.main, "C03: the handle a context receives denotes the suspended resumer");
            vf_point(1);
            switch (vf_choose(4)) {
            case 0: {
                Tr<N_local> l1;
                g.left = 1;
                return h;
            }
            case 1: {
                Tr<N_local> l2;
                h = resume(h);
                l2.use();
                vf_check(!vf_get("destroying"), "C06: a destroyed context does not continue after its suspending call");
                break;
            }
            case 2:
                try { Tr<N_local> l3; throw 1; } catch (int) { }
                break;
            default: {
                H o = resume(h);
                vf_check(!h, "C05: a handle is empty once it was resumed");
                vf_check(!vf_get("destroying"), "C06: a destroyed context does not continue after its suspending call");
                h = std::move(o);
                vf_check(!o, "C05: a handle is empty once it was moved from");
                break;
            }
            }
            l0.use();
        }
    }
};
static H create() {
    g.entered = g.left = 0;
    switch (vf_choose(4)) {
    case 0: return make_ctx(VAlloc(), Body());
    case 1: {
        VAlloc a; Body b;
        H h = make_ctx(a, b);
        vf_check(a.t.from == 0 && b.t.from == 0, "C21: an lvalue argument is left unchanged");
        return h;
    }
    case 2: {
        VAlloc a; Body const b;
        return make_ctx(a, b);
    }
    default: {
        VAlloc a; Body b;
        return make_ctx(std::move(a), std::move(b));
    }
    }
}
static void gone() {
    vf_check(vf_count("callable") == 0, "C07: the callable of a finished context is destroyed");
    vf_check(vf_count("allocator copy") == 0, "C07: the allocator copy of a finished context is destroyed");
    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}
static void drop(H& h) {
    int e = g.entered;
    bool live = static_cast<bool>(h);
    vf_opt("destroying", 1);
    switch (vf_choose(3)) {
    case 0: h = H(); break;
    case 1: { H t = std::move(h); break; }
    default: { H t; t.swap(h); h = std::move(t); H u(std::move(h)); vf_check(!h && static_cast<bool>(u) == live, "C05: a move transfers the context"); break; }
    }
    vf_opt("destroying", 0);
    vf_check(!h, "C05: an overwritten or moved-from handle is empty");
    vf_check(g.entered == e, "C06: destroying a context that was not entered does not call its function");
    gone();
}
extern "C" void drv_life1() {
    g.main = vf_self();
    H h;
    for (;;) {
        vf_point(0);
        g.self = nullptr;
        if (!h) {
            h = H();
            gone();
            if (vf_choose(2)) return;
            h = create();
#ifdef VF_CONT
            vf_check(g.entered == 1, "C22: callcc enters the function at once");
            vf_check(static_cast<bool>(h) == (g.left == 0), "C22: the continuation is valid exactly if the context is still suspended");
#else
            vf_check(g.entered == 0, "C22: constructing a fiber does not call its function");
            vf_check(static_cast<bool>(h), "C22: a new fiber is valid");
#endif
            vf_check(vf_count("callable") <= 1, "C21: only the stored copy of the callable remains");
            vf_check(vf_count("allocator copy") <= 1, "C21: only the stored copy of the allocator remains");
        } else {
            switch (vf_choose(4)) {
            case 0:
                h = resume(h);
                vf_check(g.entered == 1, "C22: the first resume calls the function");
                vf_check(static_cast<bool>(h) == (g.left == 0), "C07: the handle of a finished context is empty, that of a suspended one is not");
                break;
            case 1: drop(h); break;
            case 2: {
                H& r = h;
                h = std::move(r);
                vf_check(static_cast<bool>(h), "C05: self-move-assignment changes nothing");
                break;
            }
            default: {
                H x(std::move(h));
                vf_check(!h && static_cast<bool>(x), "C05: a move transfers the context");
                H y;
                y = std::move(x);
                vf_check(!x && static_cast<bool>(y), "C05: a move transfers the context");
                h = std::move(y);
                break;
            }
            }
        }
    }
}
