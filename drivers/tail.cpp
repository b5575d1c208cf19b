// the C++ tail through which the PowerPC ontop_fcontext calls the injected function
#include "vf.h"
#include <boost/context/detail/fcontext.hpp>
namespace dt = boost::context::detail;
extern "C" dt::transfer_t ontop_fcontext_tail(int, void*, dt::transfer_t (*)(dt::transfer_t), dt::fcontext_t const);
struct G { void *p, *f, *rp, *rf; int n, thr; };
static G* gp;
#define g (*gp)
static dt::transfer_t inject(dt::transfer_t t) {
    g.n++;
    vf_check(t.fctx == g.f, "C03: a switch delivers the context that suspended");
    vf_check(t.data == g.p, "C03: a switch delivers the data pointer it was given");
    if (g.thr) throw 7;
    dt::transfer_t r = { g.rf, g.rp };
    return r;
}
extern "C" void drv_tail() {
    G gg; gp = &gg;
    for (;;) {
        vf_point(0);
        g.p = reinterpret_cast<void*>(vf_sym("data", 0, ~std::size_t(0), 1));
        g.f = reinterpret_cast<void*>(vf_sym("context", 0, ~std::size_t(0), 1));
        g.rp = reinterpret_cast<void*>(vf_sym("result data", 0, ~std::size_t(0), 1));
        g.rf = reinterpret_cast<void*>(vf_sym("result context", 0, ~std::size_t(0), 1));
        g.n = 0;
        g.thr = vf_choose(2);
        bool thrown = false;
        try {
            dt::transfer_t t = ontop_fcontext_tail(vf_choose(2), g.p, inject, g.f);
            vf_check(t.fctx == g.rf && t.data == g.rp, "C03: the injected function's result is the result of the suspended call");
        } catch (int i) { thrown = i == 7; }
        vf_check(thrown == (g.thr != 0), "C03,C04: an exception of the injected function leaves the suspended call");
        vf_check(g.n == 1, "C03: an injected function runs exactly once");
    }
}
