// creations that fail
#include "ctx.h"
#include <system_error>
#include <cerrno>
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
struct G { int fail; int stacks; int entered; int gave; };
static G g;
struct no_stack { Tr<N_exc> t; };
struct FAlloc {
    Tr<N_allocator> t;
    int tag;
    FAlloc() noexcept : tag(7) {}
    ctx::stack_context allocate() {
        t.use_value();
        if (g.fail && vf_choose(2)) { g.gave = 1; throw no_stack(); }
        ctx::stack_context s;
        s.size = 65536;
        s.sp = static_cast<char*>(vf_region(s.size, 16)) + s.size;
        g.stacks++;
        return s;
    }
    void deallocate(ctx::stack_context& s) noexcept {
        t.use_value();
        vf_check(tag == 7, "C13,C21: the stack is released through an allocator object that is still valid");
        vf_check(s.size == 65536, "C11,C13: deallocate receives the stack_context allocate returned or the caller passed");
        g.stacks--;
        // what a deallocation function does to the error indicator is its business
        errno = 99; vf_opt("lasterr", 99);
        vf_unregion(static_cast<char*>(s.sp) - s.size);
    }
};
struct Body {
    Tr<N_callable> t;
    H operator()(H&& in) { t.use_value(); g.entered = 1; H h = std::move(in); if (vf_choose(2)) { Tr<N_local> l; h = resume(h); } return h; }
};
static void clean() {
    vf_check(g.stacks == 0, "C13: the stack of a failed creation is released");
    vf_check(vf_kind_count("region") == 0 && vf_kind_count("heap") - vf_get("base_heap") == 0 && vf_kind_count("mmap") == 0, "C13: a failed creation leaks no memory");
}
static void live(H& h) { while (h) { if (vf_choose(2)) h = resume(h); else h = H(); } h = H(); }
// registers the thread with the library
static H back(H&& h) { return std::move(h); }
static void warm() {
    int gc = vf_opt("fail_getcontext", 0), cf = vf_opt("fail_createfiber", 0), ss = vf_opt("fail_shstk", 0);
    g.fail = 0;
    { H w = make_ctx(FAlloc(), back); if (w) w = resume(w); }
    vf_opt("fail_getcontext", gc); vf_opt("fail_createfiber", cf); vf_opt("fail_shstk", ss);
}
extern "C" void drv_fail() {
    warm();
    g.fail = 1;
    vf_opt("base_heap", vf_kind_count("heap"));
    {
        FAlloc a; Body b;
        for (int round = 0; round < 2; ++round) {
            bool failed = false;
            {
            H h;
            g.entered = g.gave = 0;
            ctx::stack_context s;
            bool pre = false;
            try {
                switch (vf_choose(round ? 2 : 5)) {
                case 0: h = make_ctx(a, b); break;
                case 1: h = make_ctx(FAlloc(), Body()); break;
                case 2: { FAlloc a2; Body b2; h = make_ctx(std::move(a2), std::move(b2)); break; }
                case 3: s = a.allocate(); pre = true; h = make_ctx(ctx::preallocated(s.sp, s.size, s), a, b); break;
                default: { FAlloc a2; s = a.allocate(); pre = true; h = make_ctx(ctx::preallocated(s.sp, s.size, s), std::move(a2), Body()); break; }
                }
            }
            catch (no_stack& e) { e.t.use(); failed = true; vf_check(g.gave, "C13: the creator sees the allocator's exception only if the allocator threw"); }
            catch (std::system_error& e) {
                failed = true;
                vf_check(e.code().value() == (vf_get("fail_createfiber") ? 8 : 12), "C13: the exception carries the error the operating system reported");
                vf_check(vf_get("fail_getcontext") || vf_get("fail_createfiber"), "C13: a creation fails only if the system refuses"); g.gave = 0;
            }
            catch (std::bad_alloc&) { failed = true; vf_check(vf_get("fail_shstk"), "C13: a creation fails only if the system refuses"); g.gave = 0; }
            catch (...) { vf_fail("C13: a failed creation reports the allocator's own exception or a system_error"); }
            vf_check(!(g.gave && !failed), "C13: a failed creation is reported by an exception");
            if (failed) {
                vf_check(!g.entered, "C13: the function of a context that was not created is not called");
                vf_check(!h, "C13: a failed creation yields no handle");
                clean();
            }
            vf_check(a.t.from == 0 && b.t.from == 0, "C13,C21: an lvalue argument is left unchanged");
            a.t.use_value(); b.t.use_value();
            vf_opt("fail_getcontext", 0); vf_opt("fail_createfiber", 0);
            live(h);
            }
            vf_check(vf_count("callable") == 1, "C13: the stored callable of a failed creation is destroyed");
            vf_check(vf_count("allocator copy") == 1, "C13: the stored allocator of a failed creation is destroyed");
            vf_check(vf_count("exception payload") == 0, "C13: the exception of a failed creation is released");
            vf_check(g.stacks == 0, "C13: the stack of a failed creation is released");
            g.fail = 0;
        }
    }
}
template <class A> static void lib(A a) {
    {
        Body b;
        H h;
        try { if (vf_choose(2)) h = make_ctx(a, b); else h = make_ctx(std::move(a), Body()); }
        catch (std::bad_alloc&) { vf_check(!g.entered, "C13: the function of a context that was not created is not called"); }
        catch (std::system_error&) { vf_check(!g.entered, "C13: the function of a context that was not created is not called"); }
        live(h);
    }
    vf_check(vf_count("callable") == 0, "C13: the stored callable of a failed creation is destroyed");
}
extern "C" void drv_fail_first() { g.entered = 0; lib(ctx::fixedsize_stack()); }
extern "C" void drv_fail_lib() {
    warm();
    g.entered = 0;
    switch (vf_choose(4)) {
    case 0: lib(ctx::fixedsize_stack()); break;
    case 1: lib(ctx::protected_fixedsize_stack()); break;
    case 2: lib(ctx::pooled_fixedsize_stack()); break;
    default: {
        Body b; H h;
        try { h = make_ctx(b); } catch (std::bad_alloc&) { } catch (std::system_error&) { }
        live(h);
    }
    }
    vf_check(vf_kind_count("mmap") == 0 && vf_kind_count("chunk") == 0, "C13: a failed creation leaks no memory");
}
