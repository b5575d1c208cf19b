// a switch must do nothing but switch
#include "ctx.h"
struct G { int created; };
static G g;
struct NoEff { NoEff() { vf_opt("noeffect", 1); } ~NoEff() { vf_opt("noeffect", 0); } };
struct EAlloc {
    ctx::stack_context allocate() {
        vf_opt("noeffect", 0);
        g.created++;
        ctx::stack_context s;
        s.size = 65536;
        s.sp = static_cast<char*>(vf_region(s.size, 16)) + s.size;
        vf_opt("noeffect", 1);
        return s;
    }
    void deallocate(ctx::stack_context& s) noexcept { vf_opt("noeffect", 0); vf_unregion(static_cast<char*>(s.sp) - s.size); }
};
struct Inj {
    int pad[6];
    Inj() : pad() { }
    Inj(Inj const& o) : pad() { pad[0] = o.pad[0]; }
    H operator()(H&& r) const { return std::move(r); }
};
struct Body {
    H operator()(H&& in) {
        H h = std::move(in);

        for (;;) {
            vf_point(1);
            switch (vf_choose(5)) {
            case 0: h = resume(h); break;
            case 1: h = resume_with(h, Inj()); break;
            case 2: { Inj i; h = resume_with(h, i); break; }
            case 3: h = resume_with(h, [](H&& r) { return std::move(r); }); break;
            default:
                // the end of a context releases its stack
                vf_opt("noeffect", 0);
                return h;
            }
        }
    }
};
static H plain_inject(H&& r) { return std::move(r); }
extern "C" void drv_eff() {
    H a, b;
    vf_phase("creation");
    vf_opt("noeffect", 1);
    a = make_ctx(EAlloc(), Body());
    vf_check(g.created == 1, "C18: creating a context obtains exactly one stack");
    vf_phase("switch");
    while (a) {
        vf_point(0);
        switch (vf_choose(6)) {
        case 0: vf_opt("noeffect", 1); a = resume(a); break;
        case 1: vf_opt("noeffect", 1); a = resume_with(a, Inj()); break;
        case 2: { vf_opt("noeffect", 1); Inj i; a = resume_with(a, i); break; }
        case 3: vf_opt("noeffect", 1); a = resume_with(a, plain_inject); break;
        case 4: { vf_opt("noeffect", 1); int k = 0; a = resume_with(a, [&k](H&& r) { ++k; return std::move(r); }); vf_check(k == 1, "C04: an injected function runs once"); break; }
        default: vf_opt("noeffect", 0); a = H(); break;
        }
    }
    vf_opt("noeffect", 0);
}
extern "C" void drv_eff_default() {
    vf_opt("count_eff", 1);
    H h;
    switch (vf_choose(2)) {
    case 0: { auto f = [](H&& r) { return std::move(r); }; h = make_ctx(f); break; }
    default: h = make_ctx(plain_inject); break;
    }
#ifndef VF_CONT
    vf_check(vf_get("eff:dynamic memory allocation") <= 1, "C18: creating a context makes no allocation besides its stack");
    vf_check(vf_get("eff:lock operation") == 0, "C18: creating a context takes no lock");
#else
    vf_check(vf_get("eff:dynamic memory allocation") <= 1, "C18: creating a context makes no allocation besides its stack");
#endif
    if (h) h = resume(h);
}
extern "C" void drv_eff_prealloc() {
    EAlloc a;
    ctx::stack_context s = a.allocate();
    vf_opt("noeffect", 1);
    H h = make_ctx(ctx::preallocated(s.sp, s.size, s), a, Body());
    while (h) { vf_point(0); if (vf_choose(2)) { vf_opt("noeffect", 1); h = resume(h); } else { vf_opt("noeffect", 0); h = H(); } }
    vf_opt("noeffect", 0);
}
