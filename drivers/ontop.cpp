// functions injected with resume_with
#include "ctx.h"
struct Gone { H h; };
struct G { const void* main; const void* resumer; const void* target; int pending; int entered; int depth; int fnthrows; int thrown; int alt; H other; int left; int copies; int tcopy; };
static G* gp;
#define g (*gp)
struct Ball { H h; explicit Ball(H&& x) : h(std::move(x)) {} Ball(Ball&&) = default; };
static H inject(H&& r, bool canthrow) {
    landed();
    vf_check(g.pending == 1, "C03,C04: an injected function runs exactly once");
    g.pending = 0;
    vf_check(vf_self() == g.target, "C03,C04: an injected function runs on the target");
    vf_check(static_cast<bool>(r), "C03,C04: an injected function gets a handle to the resumer");
    vf_check(vf_denotes(&r) == g.resumer, "C03,C04: an injected function gets a handle to the resumer");
    g.depth++;
    for (;;) {
        vf_point(3);
        switch (vf_choose(3)) {
        case 0: g.depth--; g.alt = 0; return std::move(r);
        case 1: if (!canthrow) vf_end(); g.depth--; g.thrown = 1; { Tr<N_local> l; throw Ball(std::move(r)); }
        default:
            if (g.depth > 1) vf_end();
            { Tr<N_local> l; H x = resume(r); r = std::move(x); }
            vf_check(!vf_get("destroying"), "C06: a destroyed context does not continue after its suspending call");
            vf_check(g.pending == 0, "C03,C04: an injected function runs before the suspended call returns");
            if (!r) { g.depth--; return std::move(r); }
            g.resumer = g.main;
        }
    }
}
struct F0 {
    Tr<N_ontop> t; int pad[6]; int tag;
    F0() { tag = 77; }
    H operator()(H&& r) { t.use_value(); vf_check(tag == 77, "C04: an injected function keeps its state"); tag = 78; H x = inject(std::move(r), g.entered); t.use_value(); return x; }
};
struct F1 {
    Tr<N_ontop> t;
    H operator()(H&& r) const { t.use_value(); H x = inject(std::move(r), false); t.use_value(); return x; }
};
static H fp(H&& r) { return inject(std::move(r), false); }
struct Body {
    Tr<N_callable> t;
    H operator()(H&& in) {
        vf_check(g.pending == 0, "C04: a function injected into a context that was not entered runs before the context function");
        vf_check(vf_denotes(&in) == g.main, "C03,C04: the context function receives the handle the injected function returned");
        g.entered = 1; g.target = vf_self();
        H h = std::move(in);
        for (;;) {
            vf_point(1);
            vf_check(vf_denotes(&h) == g.main, "C03,C04: the handle an injected function returns is the result of the suspended call");
            switch (vf_choose(4)) {
            case 0: case 1:
                try {
                    Tr<N_local> l;
                    if (vf_choose(2)) h = resume(h); else { H x = resume(h); h = std::move(x); }
                    vf_check(!g.thrown, "C04: an exception of an injected function leaves the suspended call");
                } catch (Ball& b) {
                    vf_check(g.thrown == 1, "C04: an injected function that threw is not run again");
                    g.thrown = 0;
                    h = std::move(b.h);
                }
                vf_check(!vf_get("destroying"), "C06: a destroyed context does not continue after its suspending call");
                vf_check(g.pending == 0, "C03,C04: an injected function runs before the suspended call returns");
                break;
            case 2: g.left = 1; return h;
            default: { Tr<N_local> l; } break;
            }
        }
    }
};
template <class F> static H with(H& h, F&& f) {
    g.resumer = vf_self();
    g.pending = 1;
#ifndef VF_CONT
    if (!g.entered) g.target = vf_denotes(&h);
#endif
    H r = resume_with(h, std::forward<F>(f));
    vf_check(g.pending == 0, "C03,C04: an injected function runs exactly once");
    return r;
}
extern "C" void drv_ontop() {
    G gg; gp = &gg;
    g.main = vf_self(); g.resumer = 0; g.target = 0; g.pending = g.entered = g.depth = g.fnthrows = g.thrown = g.alt = g.left = 0;
    H h;
    h = make_ctx(VAlloc(), Body());
#ifndef VF_CONT
    vf_check(!g.entered, "C22: constructing a fiber does not call its function");
#endif
    while (h) {
        vf_point(0);
        switch (vf_choose(9)) {
        case 0: h = resume(h); break;
        case 1: h = with(h, F0()); break;
        case 2: { F0 f; H r = with(h, f); vf_check(f.t.from == 0 && f.tag == 77, "C04,C21: the argument of resume_with is left unchanged"); h = std::move(r); break; }
        case 3: { F1 const f; H r = with(h, f); vf_check(!h, "C05: a handle is empty once it was resumed"); h = std::move(r); break; }
        case 4: h = with(h, F1()); break;
        case 5: h = with(h, fp); break;
        case 6: h = with(h, &fp); break;
        case 7: { F1 f; h = with(h, std::move(f)); break; }
        default: vf_opt("destroying", 1); h = H(); vf_opt("destroying", 0); break;
        }
    }
    h = H();
    vf_check(vf_count("injected function") == 0, "C04,C07: the copy of an injected function is destroyed");
    vf_check(vf_count("callable") == 0, "C07: the callable of a finished context is destroyed");
    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}

// the injected function destroys the context that injected it
struct Killer {
    Tr<N_ontop> t; int v;
    Killer() : v(5) {}
    H operator()(H&& r) {
        t.use_value();
        g.pending = 0;
        vf_opt("destroying", 1);
        { H d = std::move(r); }
        vf_opt("destroying", 0);
        vf_check(vf_count("caller's argument") == 0, "C06: objects on the stack of an ended context are destroyed");
        t.use_value();
        vf_check(v == 5, "C04: an injected function keeps its state although the resumer is gone");
        if (vf_choose(2)) return std::move(g.other);
        return H();
    }
};
struct Target {
    H operator()(H&& in) {
        H h = std::move(in);
        g.target = vf_self();
        for (;;) {
            vf_point(1);
            if (h) {
                if (vf_choose(2)) { Tr<N_local> l; h = resume(h); vf_check(g.pending == 0, "C03,C04: an injected function runs before the suspended call returns"); }
                else return h;
            } else {
                vf_check(!h, "C03,C04: the handle an injected function returns is the result of the suspended call");
                if (!g.other) vf_end();
                if (vf_choose(2)) return std::move(g.other);
                h = std::move(g.other);
                { Tr<N_local> l; h = resume(h); }
            }
        }
    }
};
struct Injector {
    H* t;
    H operator()(H&& in) {
        vf_check(vf_denotes(&in) == g.main, "C03: the handle a context receives denotes the suspended resumer");
        g.other = std::move(in);
        Tr<N_arg> a;
        g.pending = 1;
        g.resumer = vf_self();
        H r;
        if (vf_choose(2)) { Killer k; r = resume_with(*t, k); }
        else r = resume_with(*t, Killer());
        vf_fail("C06: a destroyed context does not continue after its suspending call");
    }
};
extern "C" void drv_ontop_kill() {
    G gg; gp = &gg;
    g.main = vf_self(); g.pending = 0; g.target = 0;
    {
        H t = make_ctx(VAlloc(), Target());
        if (vf_choose(2) && t) t = resume(t);
        if (!t) return;
        H i; { H x = make_ctx(VAlloc(), Injector{&t}); i = std::move(x); }
#ifndef VF_CONT
        i = resume(i);
#endif
        vf_check(!t, "C05: a handle is empty once it was resumed");
        t = H();
        if (i && vf_choose(2)) i = resume(i);
    }
    vf_check(vf_count("injected function") == 0, "C04,C07: the copy of an injected function is destroyed");
    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}

// copying the function throws before control left the resumer
struct CopyThrow {
    Tr<N_ontop> t;
    CopyThrow() {}
    CopyThrow(CopyThrow const& o) : t(o.t) { if (vf_self() == g.main && !g.copies && vf_choose(2)) { g.copies = 1; vf_stays = true; throw 1; } }
    CopyThrow(CopyThrow&& o) : t(std::move(o.t)) { if (vf_self() == g.main && !g.copies && vf_choose(2)) { g.copies = 1; vf_stays = true; throw 1; } }
    H operator()(H&& r) { vf_check(g.copies == 0 || g.copies == 2, "C04: a function that could not be stored is not run"); g.pending = 0; return std::move(r); }
};
extern "C" void drv_ontop_copy() {
    G gg; gp = &gg;
    g.main = vf_self(); g.resumer = 0; g.target = 0; g.pending = g.entered = g.depth = g.fnthrows = g.thrown = g.left = g.copies = 0;
    H h = make_ctx(VAlloc(), Body());
    if (vf_choose(2) && h) h = resume(h);
    if (!h) return;
    g.resumer = g.main;
    bool done = false;
    try {
        CopyThrow f;
        g.pending = 1;
        if (vf_choose(2)) h = resume_with(h, f); else h = resume_with(h, CopyThrow());
        done = true;
    } catch (int) {
        g.pending = 0;
        vf_check(vf_self() == g.main, "C04: a function that cannot be stored is reported to the caller");
        vf_check(static_cast<bool>(h), "C04: a function that cannot be stored leaves the handle unchanged");
    }
    vf_check(done || g.copies == 1, "C04: a function that cannot be stored is reported to the caller");
    g.copies = 2;
    while (h) { vf_point(0); if (vf_choose(2)) h = resume(h); else h = H(); }
    h = H();
    H k = make_ctx(VAlloc(), Body());
    if (vf_choose(2) && k) k = resume(k);
    k = H();
    vf_check(vf_count("injected function") == 0, "C04,C07: the copy of an injected function is destroyed");
    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}

// a context injects functions into the one that resumed it: the resumer sees what they return or throw
struct Back {
    Tr<N_callable> t;
    H operator()(H&& in) {
        landed();
        g.entered = 1;
        H h = std::move(in);
        Tr<N_local> l0;
        for (;;) {
            vf_point(1);
            g.target = g.main;
            switch (vf_choose(5)) {
            case 0: h = resume(h); break;
            case 1: { Tr<N_local> l; h = with(h, F0()); } break;
            case 2: { F0 f; H x = with(h, f); vf_check(f.t.from == 0 && f.tag == 77, "C04,C21: the argument of resume_with is left unchanged"); h = std::move(x); } break;
            case 3: h = with(h, F1()); break;
            default: g.left = 1; return h;
            }
            vf_check(!vf_get("destroying"), "C06: a destroyed context does not continue after its suspending call");
            vf_check(vf_denotes(&h) == g.main, "C03: the handle a context receives denotes the suspended resumer");
        }
    }
};
extern "C" void drv_ontop_back() {
    G gg; gp = &gg;
    g.main = vf_self(); g.resumer = 0; g.target = 0; g.pending = g.entered = g.depth = g.fnthrows = g.thrown = g.alt = g.left = 0;
    {
        H h;
        try { h = make_ctx(VAlloc(), Back()); }
        catch (Ball& b) { vf_check(g.thrown == 1, "C04: an injected function that threw is not run again"); g.thrown = 0; h = std::move(b.h); }
        while (h) {
            vf_point(0);
            vf_check(g.pending == 0, "C03,C04: an injected function runs before the suspended call returns");
            switch (vf_choose(3)) {
            case 0: case 1:
                try {
                    Tr<N_local> l;
                    if (vf_choose(2)) h = resume(h); else { H x = resume(h); h = std::move(x); }
                    vf_check(!g.thrown, "C04: an exception of an injected function leaves the suspended call");
                } catch (Ball& b) {
                    vf_check(g.thrown == 1, "C04: an injected function that threw is not run again");
                    vf_check(!h, "C05: a handle is empty once it was resumed");
                    g.thrown = 0;
                    h = std::move(b.h);
                }
                vf_check(static_cast<bool>(h) == (g.left == 0), "C07: the handle of a finished context is empty, that of a suspended one is not");
                break;
            default: vf_opt("destroying", 1); h = H(); vf_opt("destroying", 0); break;
            }
        }
    }
    vf_check(vf_count("injected function") == 0, "C04,C07: the copy of an injected function is destroyed");
    vf_check(vf_count("callable") == 0, "C07: the callable of a finished context is destroyed");
    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}
