// the raw primitives as the library exports them
#include "vf.h"
#include <boost/context/detail/fcontext.hpp>
namespace dt = boost::context::detail;
struct G { void* p; int fresh; int left; long fp; int inj; int want; const void* entered; void* injected_result; int seen; const void* who; int keep; dt::fcontext_t kept; };
static G* gp;
#define g (*gp)
#define R1 "C03: a switch delivers the data pointer it was given"
#define R2 "C03: a switch delivers the context that suspended"
#define R3 "C03: the injected function's result is the result of the suspended call"
static dt::transfer_t inject(dt::transfer_t t) {
    g.inj++;
    vf_check(t.data == g.p, R1);
    const void* d = vf_denotes(&t.fctx);
    vf_check(d == g.who, R2);
    g.keep = vf_choose(2);
    g.kept = t.fctx;
    dt::transfer_t r = { g.keep ? nullptr : t.fctx, g.injected_result };
    return r;
}
#define FP "C01,C02: the floating-point control words are what they were when control comes back"
#define R4 "C02: nothing runs after a context's function has returned"
static void arrived(dt::transfer_t& t, const void* from) {
    vf_check(t.data == g.p, R1);
    vf_check(vf_denotes(&t.fctx) == from, R2);
}
static void result(dt::transfer_t& t, const void* peer) {
    vf_check(t.data == g.injected_result, R3);
    if (g.keep) { vf_check(t.fctx == nullptr, R3); t.fctx = g.kept; }
    vf_check(vf_denotes(&t.fctx) == peer, R2);
}
static void entry(dt::transfer_t t) {
    const void* peer = g.who;
    g.entered = vf_self();
    g.fresh++;
    vf_check(vf_fp() == g.fp, FP);
    vf_check(g.fresh == 1, "C02,C03: the entry function is entered once");
    arrived(t, peer);
    const void* me = vf_self();
    for (;;) {
        vf_point(1);
        if (vf_choose(2)) { g.left = 1; return; }
        g.who = me;
        void* mine = vf_region(1, 1);
        vf_unregion(mine);
        if (vf_choose(2)) {
            g.p = reinterpret_cast<void*>(vf_sym("data", 0, ~std::size_t(0), 1));
            g.inj = g.want = 0;
            t = dt::jump_fcontext(t.fctx, g.p);
        } else {
            g.p = reinterpret_cast<void*>(vf_sym("data", 0, ~std::size_t(0), 1));
            g.injected_result = reinterpret_cast<void*>(vf_sym("result", 0, ~std::size_t(0), 1));
            g.inj = 0; g.want = 1;
            t = dt::ontop_fcontext(t.fctx, g.p, inject);
        }
        vf_check(g.inj == g.want, "C03: an injected function runs exactly once");
        if (g.want) { result(t, peer); }
        else arrived(t, peer);
        vf_check(vf_self() == me, "C03: control continues in the context that suspended");
        vf_check(vf_fp() == g.fp, FP);
        vf_check(!g.left, R4);
    }
}
extern "C" void drv_raw() {
    G gg; gp = &gg;
    g.fresh = g.inj = g.left = 0; g.fp = vf_fp(); g.p = nullptr;
    const void* me = vf_self();
    std::size_t n = vf_sym("stack size", 65536, std::size_t(1) << 40, 16);
    char* base = static_cast<char*>(vf_region(n, 16));
    std::size_t k = vf_sym("offset of the stack top", 0, 4096, 1), b = vf_sym("offset of the stack bottom", 0, 4096, 1);
    vf_reserve(base + n - k);
    vf_reserve_below(base + b);
    dt::transfer_t t;
    t.fctx = dt::make_fcontext(base + n - k, n - k - b, entry);
    vf_check(t.fctx != nullptr && g.fresh == 0, "C02,C03: making a context does not enter it");
    bool first = true;
    const void* peer = nullptr;
    for (;;) {
        vf_point(0);
        g.who = me;
        int c = vf_choose(3);
        if (c == 2) vf_end();
        if (c == 0 || first) {
            g.p = reinterpret_cast<void*>(vf_sym("data", 0, ~std::size_t(0), 1));
            g.inj = g.want = 0;
            t = dt::jump_fcontext(t.fctx, g.p);
        } else {
            g.p = reinterpret_cast<void*>(vf_sym("data", 0, ~std::size_t(0), 1));
            g.injected_result = reinterpret_cast<void*>(vf_sym("result", 0, ~std::size_t(0), 1));
            g.inj = 0; g.want = 1;
            t = dt::ontop_fcontext(t.fctx, g.p, inject);
        }
        first = false;
        peer = g.entered;
        vf_check(g.fresh == 1 && peer != me && peer != nullptr, "C02,C03: the entry function is entered once");
        vf_check(g.inj == g.want, "C03: an injected function runs exactly once");
        if (g.want) { result(t, peer); }
        else arrived(t, peer);
        vf_check(vf_self() == me, "C03: control continues in the context that suspended");
        vf_check(vf_fp() == g.fp, FP);
        vf_check(!g.left, R4);
    }
}
