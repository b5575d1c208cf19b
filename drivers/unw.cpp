// objects destroyed by the unwinding of a context use the library themselves
#include "ctx.h"
struct G { const void* main; int dead; int ran; int inner; H y; };
static G* gp;
#define g (*gp)
struct Once {
    Tr<N_callable> t;
    H operator()(H&& c) { landed(); Tr<N_local> l; g.inner++; return std::move(c); }
};
struct Twice {
    Tr<N_callable> t;
    H operator()(H&& c) { landed(); Tr<N_local> l; H h = std::move(c); h = resume(h); g.inner++; return h; }
};
struct Forever {
    Tr<N_callable> t;
    H operator()(H&& c) {
        landed();
        Tr<N_local> l;
        H h = std::move(c);
        for (;;) { vf_point(2); h = resume(h); g.ran++; vf_check(static_cast<bool>(h), "C06: an object destroyed by the unwinding may switch: the resumed context gets a handle to it"); }
    }
};
struct Inject {
    Tr<N_ontop> t;
    H operator()(H&& c) { t.use_value(); Tr<N_local> l; g.inner++; return std::move(c); }
};
// switches contexts while its own context is unwound
struct D {
    int k;
    explicit D(int k_) : k(k_) {}
    ~D() {
        Tr<N_local> l;
        const void* me = vf_self();
        int r = g.ran, i = g.inner;
        switch (g.y ? k : 0) {
        case 0: break;
        case 1: case 7:
            g.y = resume(g.y);
            vf_check(g.ran == r + 1 && static_cast<bool>(g.y), "C06: an object destroyed by the unwinding may switch: the resumed context runs and comes back");
            if (k == 7) { g.y = resume(g.y); vf_check(g.ran == r + 2, "C06: an object destroyed by the unwinding may switch: the resumed context runs and comes back"); }
            break;
        case 2:
            g.y = resume_with(g.y, Inject());
            vf_check(g.inner == i + 1 && g.ran == r + 1 && static_cast<bool>(g.y), "C04: a function injected by an object destroyed by the unwinding runs once");
            break;
        case 3: { H z = make_ctx(VAlloc(), Once());
            if (z) z = resume(z);
            vf_check(g.inner == i + 1 && !z, "C07: a context started and finished by an object destroyed by the unwinding"); break; }
        case 4: { H z = make_ctx(VAlloc(), Twice());
#ifndef VF_CONT
            if (vf_choose(2)) z = resume(z);
#endif
            vf_check(g.inner == i && static_cast<bool>(z), "C03: a context started by an object destroyed by the unwinding suspends");
            break; }
        default: g.y = H(); break;
        }
        vf_check(vf_self() == me, "C01: a context continues on its own stack");
        g.dead++;
    }
};
struct Body {
    Tr<N_callable> t;
    int k;
    explicit Body(int k_) : k(k_) {}
    H operator()(H&& in) {
        landed();
        H h = std::move(in);
        Tr<N_local> l0;
        D d(k);
        Tr<N_local> l1;
        for (;;) { vf_point(1); h = resume(h); }
    }
};
// ends the context from another one
struct Killer {
    Tr<N_callable> t;
    H* x;
    explicit Killer(H& x_) : x(&x_) {}
    H operator()(H&& in) {
        landed();
        H h = std::move(in);
        { D d(vf_choose(2)); *x = H(); }
        vf_check(g.dead == 2, "C06: the destroying context continues after the objects of the destroyed one are gone");
        return h;
    }
};
static void over() {
    vf_check(vf_count("callable") == 0, "C07: the callable of a finished context is destroyed");
    vf_check(vf_count("allocator copy") == 0, "C07: the allocator copy of a finished context is destroyed");
    vf_check(vf_count("injected function") == 0, "C04: the copy of an injected function is destroyed");
    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}
extern "C" void drv_unwind_uses() {
    G gg; gp = &gg;
    g.main = vf_self(); g.dead = 0; g.ran = 0; g.inner = 0;
    {
        H y = make_ctx(VAlloc(), Forever());
        if (!g.ran) { y = resume(y); }
        g.y = std::move(y);
        H x = make_ctx(VAlloc(), Body(vf_choose(8)));
        x = resume(x);
        vf_check(g.dead == 0 && static_cast<bool>(x), "C05: a suspended context is not ended");
        switch (vf_choose(3)) {
        case 0: x = H(); break;
        case 1: { H k = make_ctx(VAlloc(), Killer(x)); if (k) k = resume(k); vf_check(!k, "C07: a finished context's handle is false"); g.dead--; break; }
        default: { H z = std::move(x); try { throw 1; } catch (int) { D d(1); z = H(); } g.dead--; break; }
        }
        vf_check(vf_self() == g.main, "C06: control returns to the context that destroyed the handle");
        vf_check(g.dead == 1, "C06: objects on the stack of a destroyed context are destroyed exactly once");
        g.y = H();
    }
    over();
}
// a callable that owns the handle of another context
struct Owner {
    Tr<N_callable> t;
    H y;
    explicit Owner(H&& h) : y(std::move(h)) {}
    Owner(Owner&&) = default;
    H operator()(H&& in) {
        landed();
        t.use_value();
        H h = std::move(in);
        Tr<N_local> l;
        vf_check(static_cast<bool>(y), "C21: the stored callable owns what the caller's owned");
        for (int i = 0; i < 2; i++) {
            vf_point(3);
            switch (vf_choose(4)) {
            case 0: h = resume(h); break;
            case 1: { int r = g.ran; y = resume(y); vf_check(g.ran == r + 1, "C03: the resumed context runs and comes back"); break; }
            case 2: return h;
            default: { H z = std::move(h); h = make_ctx(VAlloc(), Once()); if (h) h = resume(h); h = std::move(z); break; }
            }
        }
        return h;
    }
};
extern "C" void drv_owner() {
    G gg; gp = &gg;
    g.main = vf_self(); g.dead = 0; g.ran = 0; g.inner = 0;
    {
        H y = make_ctx(VAlloc(), Forever());
        if (!g.ran) { y = resume(y); }
        H x = make_ctx(VAlloc(), Owner(std::move(y)));
        vf_check(!y, "C05: a handle is empty once it was moved from");
        for (;;) {
            vf_point(4);
            if (!x) break;
            int c = vf_choose(3);
            if (c == 0) { x = resume(x); continue; }
            if (c == 1) break;
            try { H z = std::move(x); throw 1; } catch (int) {}
        }
    }
    vf_check(vf_self() == g.main, "C06: control returns to the context that destroyed the handle");
    over();
}
