#ifndef VF_CTX_H
#define VF_CTX_H
#include "vf.h"
#ifdef VF_CONT
# include <boost/context/continuation.hpp>
#else
# include <boost/context/fiber.hpp>
#endif
#include <boost/context/stack_context.hpp>
#include <boost/context/preallocated.hpp>
#if defined(BOOST_USE_SEGMENTED_STACKS)
# include <boost/context/segmented_stack.hpp>
#endif
namespace ctx = boost::context;
#ifdef VF_CONT
typedef ctx::continuation H;
#else
typedef ctx::fiber H;
#endif

#ifndef VF_STACK
# define VF_STACK 65536
#endif

#define VF_FPRULE "C01,C02: the floating-point control words are what they were when control comes back"

// the client's allocator: opaque stacks, followed copies
struct VAlloc {
    Tr<N_allocator> t;
    int tag;
    VAlloc() noexcept : tag(7) {}
    ctx::stack_context allocate() {
        t.use_value();
#if defined(BOOST_USE_SEGMENTED_STACKS)
        return ctx::segmented_stack(VF_STACK).allocate();
#else
        ctx::stack_context s;
        s.size = VF_STACK;
        s.sp = static_cast<char*>(vf_region(VF_STACK, 16)) + s.size;
        return s;
#endif
    }
    void deallocate(ctx::stack_context& s) noexcept {
        t.use_value();
        vf_check(tag == 7, "C21: deallocate is called on an object that is no copy of the allocator");
        vf_check(s.size == VF_STACK, "C11: deallocate receives another size than allocate returned");
#if defined(BOOST_USE_SEGMENTED_STACKS)
        ctx::segmented_stack(VF_STACK).deallocate(s);
#else
        vf_unregion(static_cast<char*>(s.sp) - s.size);
#endif
    }
};

template <class F>
inline H make_ctx(F&& f) {
    long fp = vf_fp();
#ifdef VF_CONT
    H r = ctx::callcc(std::forward<F>(f));
#else
    H r = H(std::forward<F>(f));
#endif
    vf_check(vf_fp() == fp, VF_FPRULE);
    return r;
}
template <class A, class F>
inline H make_ctx(A&& a, F&& f) {
    long fp = vf_fp();
#ifdef VF_CONT
    H r = ctx::callcc(std::allocator_arg, std::forward<A>(a), std::forward<F>(f));
#else
    H r = H(std::allocator_arg, std::forward<A>(a), std::forward<F>(f));
#endif
    vf_check(vf_fp() == fp, VF_FPRULE);
    return r;
}
template <class A, class F>
inline H make_ctx(ctx::preallocated p, A&& a, F&& f) {
    long fp = vf_fp();
#ifdef VF_CONT
    H r = ctx::callcc(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f));
#else
    H r = H(std::allocator_arg, p, std::forward<A>(a), std::forward<F>(f));
#endif
    vf_check(vf_fp() == fp, VF_FPRULE);
    return r;
}
// a handle gives up its context before control leaves: whoever runs next finds it empty
#ifdef VF_NO_LANDED
inline void landed() {}
struct Left { explicit Left(H&) {} };
#else
static const H* vf_left_by;
static bool vf_stays;          // control did not leave
inline void landed() {
    const H* p = vf_left_by;
    vf_left_by = nullptr;
    if (p) vf_check(!*p, "C05: a handle is empty while the context it denoted runs");
}
struct Left {
    H& h;
    explicit Left(H& x) : h(x) { vf_left_by = &x; }
    ~Left() {
        if (vf_stays) { vf_stays = false; vf_left_by = nullptr; return; }
        landed();
        vf_check(!h, "C05: a handle is empty once it was resumed");
    }
};
#endif
inline H resume(H& h) {
    long fp = vf_fp();
    Left l(h);
#ifdef VF_CONT
    H r = h.resume();
#else
    H r = std::move(h).resume();
#endif
    vf_check(vf_fp() == fp, VF_FPRULE);
    return r;
}
template <class F>
inline H resume_with(H& h, F&& f) {
    long fp = vf_fp();
    Left l(h);
#ifdef VF_CONT
    H r = h.resume_with(std::forward<F>(f));
#else
    H r = std::move(h).resume_with(std::forward<F>(f));
#endif
    vf_check(vf_fp() == fp, VF_FPRULE);
    return r;
}
#endif
