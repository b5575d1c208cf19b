// where control structure and stack of a context are placed
#include "ctx.h"
#include <cstdint>
struct G { const void* base; ctx::stack_context s; int dealloc; const void* body; int runs; std::size_t lo; };
static G g;
#if defined(BOOST_USE_SEGMENTED_STACKS)
#define SEGSET(s) (s).segments_ctx[0] = &g; (s).segments_ctx[3] = &g.runs
#define SEGCHK(s) vf_check((s).segments_ctx[0] == &g && (s).segments_ctx[3] == &g.runs, "C11: deallocate receives the stack_context allocate returned or the caller passed")
#else
#define SEGSET(s)
#define SEGCHK(s)
#endif
struct SAlloc {
    Tr<N_allocator> t;
    ctx::stack_context allocate() {
        ctx::stack_context s;
        s.size = vf_sym("stack size", 65536, std::size_t(1) << 40, 1);
        g.base = vf_region(s.size, 16);
        s.sp = static_cast<char*>(const_cast<void*>(g.base)) + s.size;
        SEGSET(s);
        g.s = s;
        return s;
    }
    void deallocate(ctx::stack_context& s) noexcept {
        t.use_value();
        g.dealloc++;
        vf_check(s.sp == g.s.sp, "C11: deallocate receives the stack_context allocate returned or the caller passed");
        vf_check(s.size == g.s.size, "C11: deallocate receives the stack_context allocate returned or the caller passed");
        SEGCHK(s);
        vf_unregion(const_cast<void*>(g.base));
    }
};
template <std::size_t N, std::size_t A> struct alignas(A) Blob {
    unsigned char b[N];
    Tr<N_callable> t;
    Blob() : t() { b[0] = 1; b[N - 1] = 2; }
    H operator()(H&& in) {
        t.use_value();
        g.runs++;
        vf_check((reinterpret_cast<std::uintptr_t>(this) & (A - 1)) == 0, "C11: the control structure is aligned for the callable it stores");
        vf_check((reinterpret_cast<std::uintptr_t>(&t) & (alignof(Tr<N_callable>) - 1)) == 0, "C11: the control structure is aligned for the callable it stores");
        vf_check(vf_same_obj(this, g.base), "C11: the control structure lies inside the stack");
        vf_check(b[0] == 1 && b[N - 1] == 2, "C21: the stored callable is a copy of the argument");
        H h = std::move(in);
        while (vf_choose(2)) { vf_point(1); Tr<N_local> l; h = resume(h); }
        vf_check(b[0] == 1 && b[N - 1] == 2, "C21: the stored callable is a copy of the argument");
        return h;
    }
};
template <class B> static void one() {
    g.dealloc = g.runs = 0;
    {
        H h;
        if (vf_choose(2)) {
            h = make_ctx(SAlloc(), B());
        } else {
            SAlloc a;
            ctx::stack_context s = a.allocate();
            std::size_t k = vf_sym("reserved", 0, 8192, 1);
            char* sp = static_cast<char*>(s.sp) - k;
            ctx::preallocated p(sp, s.size - k, s);
            vf_reserve(sp);
            if (vf_choose(2)) h = make_ctx(p, a, B()); else h = make_ctx(p, std::move(a), B());
        }
        while (h) { vf_point(0); if (vf_choose(2)) h = resume(h); else break; }
    }
    vf_check(g.dealloc == 1, "C07: the stack of a finished context is given back");
    vf_check(vf_kind_count("region") == 0, "C07: the stack of a finished context is given back");
}
extern "C" void drv_place() {
    int form = vf_choose(7);
    VF_AGAIN switch (form) {
    case 0: one<Blob<2, 4> >(); break;
    case 1: one<Blob<7, 8> >(); break;
    case 2: one<Blob<40, 64> >(); break;
    case 3: one<Blob<3000, 16> >(); break;
    case 4: one<Blob<300, 256> >(); break;
    case 5: one<Blob<300, 1024> >(); break;
    default: one<Blob<4096, 128> >(); break;
    }
}
