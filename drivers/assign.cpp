// assigning over a handle that owns a context
#include "ctx.h"
struct G { const void* main; int alive; int entered[2]; };
static G g;
struct Body {
    Tr<N_callable> t; int k;
    explicit Body(int i) : k(i) {}
    H operator()(H&& in) {
        g.entered[k]++;
        H h = std::move(in);
        struct A { A() { g.alive++; } ~A() { g.alive--; } } a;
        for (;;) {
            vf_point(1);
            Tr<N_local> l;
            if (vf_choose(2)) return h;
            h = resume(h);
            vf_check(!vf_get("destroying"), "C05,C06: a context that was assigned over does not continue after its suspending call");
        }
    }
};
static H make(int k) {
    g.entered[k] = 0;
    H h = make_ctx(VAlloc(), Body(k));
    if (vf_choose(2) && h) h = resume(h);
    return h;
}
extern "C" void drv_assign() {
    g.main = vf_self(); g.alive = 0;
    {
        H a, b;
        if (vf_choose(2)) a = make(0);
        if (vf_choose(2)) b = make(1);
        const void* db = vf_denotes(&b);
        bool la = a ? true : false, lb = b ? true : false;
        int al = g.alive;
        int e0 = g.entered[0];
        vf_opt("destroying", 1);
        switch (vf_choose(4)) {
        case 0: a = std::move(b); break;
        case 1: { H& r = (a = std::move(b)); vf_check(&r == &a, "C05: assignment returns the assigned handle"); break; }
        case 2: { H t(std::move(b)); a = std::move(t); vf_check(!t, "C05: a handle is empty once it was moved from"); break; }
        default: { struct W { H h; } x{std::move(a)}, y{std::move(b)}; x = std::move(y); a = std::move(x.h); vf_check(!y.h, "C05: a handle is empty once it was moved from"); break; }
        }
        vf_opt("destroying", 0);
        vf_check(!b, "C05,C20: a handle is empty once it was moved from");
        vf_check((a ? true : false) == lb, "C05,C20: a move transfers the context");
        vf_check(!lb || vf_denotes(&a) == db, "C05: a move transfers the context");
        vf_check(g.entered[0] == e0, "C06: destroying a context that was not entered does not call its function");
        vf_check(vf_count("callable") == (lb ? 1 : vf_denotes(&a) ? 1 : 0), "C05,C06,C07: assigning over a handle ends the context it owned before the assignment returns");
        vf_check(vf_kind_count("region") <= 1, "C05,C06,C07: assigning over a handle gives the stack of the context it owned back");
        vf_check(!la || g.alive <= al, "C05,C06: assigning over a handle unwinds the stack of the context it owned");
        b = H();
        vf_check((a ? true : false) == lb, "C05: clearing a moved-from handle does not affect the context it had");
        H c;
        c = std::move(c);
        vf_check(!c, "C05: self-move-assignment changes nothing");
        if (a) { const void* d = vf_denotes(&a); H& r = a; a = std::move(r); vf_check(vf_denotes(&a) == d, "C05: self-move-assignment changes nothing"); if (vf_choose(2)) a = resume(a); }
    }
    vf_check(g.alive == 0, "C05,C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_count("callable") == 0, "C07: the callable of a finished context is destroyed");
    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}
