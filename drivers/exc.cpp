// exceptions and the boundary of a context
#include "ctx.h"
#include <stdexcept>
#ifdef VF_CONT
typedef ctx::detail::forced_unwind FU;
#else
typedef ctx::detail::forced_unwind FU;
#endif
struct E0 { Tr<N_exc> t; int v; };
struct E1 : std::runtime_error { E1() : std::runtime_error("x") {} };
struct G { const void* main; int entered; int thrown; int handled; const void* body; };
static G g;
static H* keep;
static void escape(H& h) { g.thrown = 1; vf_opt("term", 1);
#ifndef VF_DROP
    *keep = std::move(h);
#endif
}
struct Body {
    Tr<N_callable> t;
    H operator()(H&& in) {
        g.entered = 1; g.body = vf_self();
        H h = std::move(in);
        Tr<N_local> l0;
        for (;;) {
            vf_point(1);
            switch (vf_choose(9)) {
            case 0: h = resume(h); break;
            case 1: try { Tr<N_local> l; h = resume(h); vf_check(!vf_get("destroying"), "C06: a destroyed context does not continue after its suspending call"); }
                    catch (...) { vf_check(vf_get("destroying"), "C08: a suspending call throws only to unwind"); vf_check(vf_self() == g.body, "C08: the unwinding starts on the stack of the destroyed context"); g.handled++; throw; }
                    break;
            case 2: try { Tr<N_local> l; h = resume(h); }
                    catch (std::exception const&) { vf_fail("C08: handlers for other exceptions do not stop the unwinding"); }
                    catch (int) { vf_fail("C08: handlers for other exceptions do not stop the unwinding"); }
                    catch (char const*) { vf_fail("C08: handlers for other exceptions do not stop the unwinding"); }
                    catch (void const*) { vf_fail("C08: handlers for other exceptions do not stop the unwinding"); }
                    catch (FU const&) { vf_check(vf_get("destroying"), "C08: a suspending call throws only to unwind"); Tr<N_local> m; throw; }
                    break;
            case 3: try { Tr<N_local> l; throw E0(); } catch (E0& e) { vf_check(vf_self() == g.body, "C08: an exception stays on the stack it was thrown on"); e.t.use(); } break;
            case 4: try { throw E1(); } catch (std::exception& e) { Tr<N_local> l; } break;
            case 5: { Tr<N_local> l; escape(h); throw E0(); }
            case 6: escape(h); throw E1();
            case 7: try { escape(h); throw 42; } catch (E0&) { vf_fail("C08: wrong handler"); } break;
            default: return h;
            }
        }
    }
};
extern "C" void drv_exc() {
    g.main = vf_self(); g.thrown = 0; g.handled = 0; g.entered = 0;
    H k; keep = &k;
    {
        H h;
        try {
            h = make_ctx(VAlloc(), Body());
            vf_check(!g.thrown, "C08: an exception that leaves a context function terminates the program");
            bool live = static_cast<bool>(h);
            while (live) {
                vf_point(0);
                vf_check(!g.thrown, "C08: an exception that leaves a context function terminates the program");
                vf_check(vf_self() == g.main, "C08: control returns to the context that requested the unwinding");
                switch (vf_choose(4)) {
                case 0: h = resume(h); live = static_cast<bool>(h); break;
                case 1: try { throw E0(); } catch (E0&) { } break;
                case 2:
                    // the handle goes out of scope because of an exception
                    vf_opt("destroying", 1);
                    try { H d = std::move(h); throw E0(); } catch (E0&) { }
                    vf_opt("destroying", 0); live = false;
                    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
                    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
                    break;
                default:
                    vf_opt("destroying", 1); h = H(); vf_opt("destroying", 0); live = false; break;
                }
            }
        } catch (...) {
            vf_fail("C08: no exception crosses to another context's stack");
        }
        vf_check(vf_self() == g.main, "C08: control returns to the context that requested the unwinding");
    }
    vf_check(vf_count("exception payload") == 0, "C08: a caught exception is destroyed");
    vf_check(vf_count("local object of a context") == 0, "C06: objects on the stack of an ended context are destroyed");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}
// what a client does with a function pointer body / noexcept / std::function-like callable
static H plain(H&& in) { if (vf_choose(2)) { escape(in); throw 1; } H h = std::move(in); h = resume(h); return h; }
extern "C" void drv_exc_plain() {
    g.main = vf_self(); g.thrown = 0;
    H k; keep = &k;
    try {
        H h = vf_choose(2) ? make_ctx(VAlloc(), plain) : make_ctx(VAlloc(), &plain);
        while (h) { vf_point(0); vf_check(!g.thrown, "C08: an exception that leaves a context function terminates the program"); if (vf_choose(2)) h = resume(h); else h = H(); }
    } catch (...) { vf_fail("C08: no exception crosses to another context's stack"); }
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}
// an exception of a function injected into a fiber that was not entered leaves the context function's level
#ifndef VF_CONT
extern "C" void drv_exc_inject() {
    g.main = vf_self(); g.thrown = 0;
    H k; keep = &k;
    try {
        H h = make_ctx(VAlloc(), plain);
        h = resume_with(h, [](H&& r) -> H { H x = std::move(r); if (vf_choose(2)) { escape(x); throw 2; } return x; });
        while (h) { vf_point(0); vf_check(!g.thrown, "C08: an exception that leaves a context function terminates the program"); if (vf_choose(2)) h = resume(h); else h = H(); }
    } catch (...) { vf_fail("C08: no exception crosses to another context's stack"); }
}
#endif
