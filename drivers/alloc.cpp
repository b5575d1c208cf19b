// the stack allocators
#include "vf.h"
#include <cstdint>
#include <new>
#include <sys/mman.h>
#if defined(VF_WIN)
#include <boost/context/windows/protected_fixedsize_stack.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#if defined(BOOST_USE_SEGMENTED_STACKS)
#include <boost/context/segmented_stack.hpp>
#endif
namespace ctx = boost::context;
static int storages() { return vf_kind_count("heap") + vf_kind_count("mmap") + vf_kind_count("segs") + vf_kind_count("chunk"); }
template <class A> static void inspect(ctx::stack_context const& s, std::size_t want, bool exact) {
    const char* lo = static_cast<char*>(s.sp) - s.size;
    vf_check(s.sp != nullptr, "C09: a stack_context has a stack");
    vf_check(s.size >= want, "C09: a stack has at least the requested size");
    vf_check(vf_obj_off(lo) == 0, "C09: the stack starts where its memory starts");
    vf_check(vf_obj_size(lo) >= s.size, "C09: the whole range of a stack is memory obtained for it");
    if (exact) vf_check(s.size == want, "C09: a stack has the requested size");
#if defined(BOOST_USE_VALGRIND)
    vf_check(vf_vg_covers(s.valgrind_stack_id, lo, s.sp), "C15: the registered range is the stack that was handed out");
#endif
}
// sizes for which size plus guard and rounding is not representable may be refused by the library itself
static void refused() {
#ifndef VF_WRAP
    vf_check(vf_get("refused"), "C09: allocate fails only if the system refuses memory");
#endif
    vf_opt("refused", 0);
}
static void mapped(ctx::stack_context const& s) {
    const char* lo = static_cast<char*>(s.sp) - s.size;
    if (vf_obj_is(lo, "mmap")) {
        vf_check(vf_obj_meta(lo, "prot") == (PROT_READ | PROT_WRITE), "C09: stack memory can be read and written");
#if !defined(VF_WIN)
        vf_check(vf_obj_meta(lo, "flags") & MAP_PRIVATE, "C09: stack memory is private to the process");
        vf_check(vf_obj_meta(lo, "flags") & MAP_ANONYMOUS, "C09: stack memory is anonymous");
#endif
    }
}
static void guarded(ctx::stack_context const& s, std::size_t want, std::size_t page) {
    const char* lo = static_cast<char*>(s.sp) - s.size;
    std::size_t off = vf_obj_meta(lo, "guard_off"), len = vf_obj_meta(lo, "guard_len"), prot = vf_obj_meta(lo, "guard_prot");
    vf_check(len != 0, "C10: a guard is installed before the stack is handed out");
    vf_check(prot == PROT_NONE, "C10: the guard is inaccessible");
    vf_check(off == 0, "C10: the guard is the lowest page of the stack");
    vf_check(len >= page, "C10: the guard is a whole page");
    vf_check((len & (page - 1)) == 0, "C10: the guard consists of whole pages");
    vf_check(s.size - len >= want, "C10: the accessible part is at least the requested size");
}
template <class A> static void cycle(A a, std::size_t n, bool exact, bool prot, std::size_t page) {
    int before = storages();
    ctx::stack_context s, r;
    try {
        s = a.allocate();
    } catch (std::bad_alloc const&) {
        vf_check(storages() == before, "C09: a failed allocate leaves nothing allocated");
        refused();
        return;
    } catch (...) {
        vf_fail("C09: allocate fails with std::bad_alloc");
    }
    vf_check(storages() == before + 1, "C09: allocate obtains memory newly for each call");
    inspect<A>(s, n, exact);
    if (prot) guarded(s, n, page); else vf_check(vf_obj_meta(static_cast<char*>(s.sp) - s.size, "guard_len") == 0, "C09: a stack is usable in full");
    mapped(s);
    bool two = false;
    A b(a);
    if (vf_choose(2)) {
        try { r = b.allocate(); two = true; }
        catch (std::bad_alloc const&) { vf_check(storages() == before + 1, "C09: a failed allocate leaves nothing allocated"); refused(); }
        if (two) {
            vf_check(storages() == before + 2, "C09: allocate obtains memory newly for each call");
            vf_check(!vf_same_obj(static_cast<char*>(r.sp) - r.size, static_cast<char*>(s.sp) - s.size), "C09: two stacks do not share memory");
            inspect<A>(r, n, exact);
            if (prot) guarded(r, n, page);
            mapped(r);
        }
    }
    A c(a);
    A d(n);
    if (two && vf_choose(2)) { a.deallocate(r); two = false; }
    switch (vf_choose(3)) {
    case 0: a.deallocate(s); break;
    case 1: c.deallocate(s); break;
    default: c = b; c.deallocate(s); break;
    }
    if (two) c.deallocate(r);
    vf_check(storages() == before, "C09: deallocate gives the memory back");
}
#ifdef VF_WRAP
# define HI (~std::size_t(0))
#else
# define HI (std::size_t(1) << 46)
#endif
extern "C" void drv_fixed() { VF_AGAIN { std::size_t n = vf_sym("requested size", 1, HI, 1); cycle(ctx::fixedsize_stack(n), n, true, false, 0); } }
extern "C" void drv_protected() { VF_AGAIN { std::size_t n = vf_sym("requested size", 1, HI, 1); std::size_t p = vf_get("page"); cycle(ctx::protected_fixedsize_stack(n), n, false, true, p); } }
extern "C" void drv_default() {
    { ctx::fixedsize_stack a; cycle(a, ctx::stack_traits::default_size(), true, false, 0); }
    { ctx::protected_fixedsize_stack a; cycle(a, ctx::stack_traits::default_size(), false, true, vf_get("page")); }
    { ctx::default_stack a; cycle(a, ctx::stack_traits::default_size(), false, false, 0); }
}
extern "C" void drv_pooled() {
    VF_AGAIN {
    std::size_t n = vf_sym("requested size", 1, HI, 1);
    int before = storages();
    {
        ctx::pooled_fixedsize_stack a(n);
        int mid = storages();
        {
            ctx::stack_context s, r;
            bool one = false, two = false;
            ctx::pooled_fixedsize_stack b(a);
            try { s = a.allocate(); one = true; } catch (std::bad_alloc const&) { vf_check(storages() == mid, "C09: a failed allocate leaves nothing allocated"); refused(); }
            if (one) { inspect<int>(s, n, true); vf_check(storages() == mid + 1, "C09: allocate obtains memory newly for each call"); }
            try { r = b.allocate(); two = true; } catch (std::bad_alloc const&) { refused(); }
            if (two) inspect<int>(r, n, true);
            if (one && two) vf_check(!vf_same_obj(static_cast<char*>(r.sp) - r.size, static_cast<char*>(s.sp) - s.size), "C09: two stacks do not share memory");
            if (one) { if (vf_choose(2)) a.deallocate(s); else { ctx::pooled_fixedsize_stack c(std::move(b)); c.deallocate(s); b = c; } }
            if (two) b.deallocate(r);
        }
        vf_check(storages() == mid, "C09: deallocate gives the memory back");
    }
    vf_check(storages() == before, "C12: the pool goes with the last copy of the allocator");
    }
}
static void within(ctx::stack_context const& s, std::size_t n) {
    const char* lo = static_cast<char*>(s.sp) - s.size;
    vf_check(s.size == n, "C09: a stack has the requested size");
    vf_check(vf_obj_off(lo) + s.size <= vf_obj_size(lo), "C09: the stack lies inside memory obtained for it");
    *const_cast<volatile char*>(lo) = 1;
    static_cast<volatile char*>(s.sp)[-1] = 1;
}
// the pool itself is interpreted, down to the blocks it takes from the system
static void real(std::size_t n, std::size_t next, std::size_t max) {
    int before = storages();
    {
        ctx::pooled_fixedsize_stack a(n, next, max);
        ctx::stack_context s, r;
        bool one = false, two = false;
        try { s = a.allocate(); one = true; } catch (std::bad_alloc const&) { vf_check(vf_get("refused"), "C09: allocate fails only if the system refuses memory"); }
        if (one) within(s, n);
        try { r = a.allocate(); two = true; } catch (std::bad_alloc const&) { vf_check(vf_get("refused"), "C09: allocate fails only if the system refuses memory"); }
        if (two) within(r, n);
        if (one && two) {
            char *p = static_cast<char*>(s.sp), *q = static_cast<char*>(r.sp);
            vf_check(!vf_same_obj(p - s.size, q - r.size) || p <= q - r.size || q <= p - s.size, "C09: two stacks do not share memory");
        }
        if (one && vf_choose(2)) { a.deallocate(s); one = false; try { s = a.allocate(); one = true; } catch (std::bad_alloc const&) { vf_check(vf_get("refused"), "C09: allocate fails only if the system refuses memory"); } }
        if (two) a.deallocate(r);
        if (one) a.deallocate(s);
    }
    vf_check(storages() == before, "C09: the pool gives its memory back with the last copy of the allocator");
}
extern "C" void drv_pooled_real() {
    int form = vf_choose(4);
    VF_AGAIN switch (form) {
    case 0: real(4096, 1, 0); break;
    case 1: real(8192, 2, 0); break;
    case 2: real(5000, 3, 2); break;
    default: real(131072, 2, 1); break;
    }
}
extern "C" void drv_pooled_default() { ctx::pooled_fixedsize_stack a; ctx::stack_context s; try { s = a.allocate(); } catch (std::bad_alloc const&) { refused(); return; } inspect<int>(s, ctx::stack_traits::default_size(), true); a.deallocate(s); }
#if defined(BOOST_USE_SEGMENTED_STACKS)
extern "C" void drv_segmented() { VF_AGAIN { std::size_t n = vf_sym("requested size", 4096, HI, 1); cycle(ctx::segmented_stack(n), n, false, false, 0); } }
#endif
