// every way to make a context
#include "ctx.h"
struct G { const void* main; int entered; int body; int back; H gm; const void* k; int arg; };
static G* gp;
#define g (*gp)
static H body(H&& in) {
    vf_check(g.entered == 0, "C21,C22: the context function is called once");
    g.entered++;
    vf_check(vf_self() != g.main, "C22: the context function runs on its own context");
    vf_check(static_cast<bool>(in), "C03,C22: the context function gets a handle to the context that started it");
    vf_check(vf_denotes(&in) == g.main, "C03,C22: the context function gets a handle to the context that started it");
    Tr<N_local> l;
    H h = std::move(in);
    switch (g.body) {
    case 0: return h;
    case 1: h = resume(h); vf_check(vf_denotes(&h) == g.main, "C03: the handle a context receives denotes the suspended resumer"); return h;
    default: for (;;) { vf_point(1); h = resume(h); }
    }
}
struct Fn { Tr<N_callable> t; H operator()(H&& in) { t.use_value(); return body(std::move(in)); } };
struct Big { long pad[40]; Tr<N_callable> t; Big() { pad[0] = 3; pad[39] = 5; } H operator()(H&& in) { vf_check(pad[0] == 3 && pad[39] == 5, "C21: the stored callable is a copy of the argument"); return body(std::move(in)); } };
struct Cst { H operator()(H&& in) const { return body(std::move(in)); } };
struct ByVal { H operator()(H in) { return body(std::move(in)); } };
struct MoveOnly { Tr<N_callable> t; MoveOnly() {} MoveOnly(MoveOnly&& o) noexcept : t(std::move(o.t)) {} H operator()(H&& in) { t.use_value(); return body(std::move(in)); } };
static H fp(H&& in) { return body(std::move(in)); }
static void before() { g.entered = 0; }
static void after(H& h, bool fresh) {
    (void)fresh;
#ifdef VF_CONT
    vf_check(g.entered == 1, "C22: callcc enters the function at once");
    vf_check(static_cast<bool>(h) == (g.body != 0), "C22: the continuation is valid exactly if the context is still suspended");
#else
    vf_check(g.entered == 0, "C22: constructing a fiber does not call its function");
    vf_check(static_cast<bool>(h), "C22: a new fiber is valid");
    if (vf_choose(2)) {
        h = resume(h);
        vf_check(g.entered == 1, "C22: the first resume calls the function");
        vf_check(static_cast<bool>(h) == (g.body != 0), "C22,C07: the handle of a finished context is empty, that of a suspended one is not");
    }
#endif
    vf_check(vf_self() == g.main, "C22: creating a context returns in the context that asked for it");
}
template <class F> static void forms(F&& mk) {
    before();
    { H h = mk(); after(h, true); if (h && vf_choose(2)) { bool s = g.entered == 1 && g.body == 1; h = resume(h); if (s) vf_check(!h, "C07: the handle of a finished context is empty"); } }
    vf_check(vf_count("callable") == 0, "C07,C21: the callable of a finished context is destroyed");
    vf_check(vf_count("allocator copy") == 0, "C07,C21: the allocator copy of a finished context is destroyed");
    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}
extern "C" void drv_make() {
    G gg; gp = &gg;
    g.main = vf_self();
    int form = vf_choose(16);
    VF_AGAIN {
    g.body = vf_choose(3);
    switch (form) {
    case 0: forms([] { return make_ctx(Fn()); }); break;
    case 1: forms([] { Fn f; H h = make_ctx(f); vf_check(f.t.from == 0, "C21: an lvalue argument is left unchanged"); return h; }); break;
    case 2: forms([] { Fn f; return make_ctx(std::move(f)); }); break;
    case 3: forms([] { Cst const f; return make_ctx(f); }); break;
    case 4: forms([] { return make_ctx(fp); }); break;
    case 5: forms([] { return make_ctx(&fp); }); break;
    case 6: forms([] { return make_ctx(VAlloc(), Big()); }); break;
    case 7: forms([] { VAlloc a; Big b; H h = make_ctx(a, b); vf_check(a.t.from == 0 && b.t.from == 0, "C21: an lvalue argument is left unchanged"); return h; }); break;
    case 8: forms([] { return make_ctx(VAlloc(), MoveOnly()); }); break;
    case 9: forms([] { VAlloc const a; return make_ctx(VAlloc(a), fp); }); break;
    case 10: forms([] { VAlloc a; ctx::stack_context s = a.allocate(); return make_ctx(ctx::preallocated(s.sp, s.size, s), a, Fn()); }); break;
    case 11: forms([] { VAlloc a; ctx::stack_context s = a.allocate(); Fn f; H h = make_ctx(ctx::preallocated(s.sp, s.size, s), a, f); vf_check(a.t.from == 0 && f.t.from == 0, "C21: an lvalue argument is left unchanged"); return h; }); break;
    case 12: forms([] { VAlloc a; ctx::stack_context s = a.allocate(); return make_ctx(ctx::preallocated(static_cast<char*>(s.sp) - 256, s.size - 256, s), std::move(a), MoveOnly()); }); break;
    case 13: forms([] { VAlloc a; ctx::stack_context s = a.allocate(); return make_ctx(ctx::preallocated(static_cast<char*>(s.sp) - 64, s.size - 64, s), VAlloc(a), fp); }); break;
    case 14: forms([] { return make_ctx(VAlloc(), Cst()); }); break;
    default: forms([] { return make_ctx(ByVal()); }); break;
    }
    g.body = g.entered = 0;
    }
}
#ifdef VF_CONT
// the function passes control on: callcc returns when control comes back, from wherever
struct K { H operator()(H&& in) { H h = std::move(in); h = resume(h); vf_check(static_cast<bool>(g.gm), "C22: callcc returns only when control comes back to the caller"); H m = std::move(g.gm); g.back = 1; if (g.body) return m; m = resume(m); return m; } };
struct P { H* k; H operator()(H&& in) { g.entered++; g.gm = std::move(in); H x = resume(*k); return x; } };
extern "C" void drv_make_pass() {
    G gg; gp = &gg;
    g.main = vf_self(); g.entered = g.back = 0; g.body = vf_choose(2);
    {
        H k = make_ctx(VAlloc(), K());
        g.k = vf_denotes(&k);
        H h = make_ctx(VAlloc(), P{&k});
        vf_check(g.entered == 1 && g.back == 1, "C22: callcc returns only when control comes back to the caller");
        vf_check(static_cast<bool>(h) == !g.body, "C22: the continuation is valid exactly if the context that gave control back is still suspended");
        if (h) vf_check(vf_denotes(&h) == g.k, "C22: the continuation denotes the context that gave control back");
        vf_end();
    }
}
#endif
