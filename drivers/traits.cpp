// what the library reports about stacks, for every system
#include "vf.h"
#include <boost/context/stack_traits.hpp>
namespace ctx = boost::context;
typedef ctx::stack_traits S;
struct V { bool unb; std::size_t page, def, min, max; };
static V look() {
    V v;
    v.unb = S::is_unbounded();
    v.page = S::page_size();
    v.def = S::default_size();
    v.min = S::minimum_size();
    v.max = v.unb ? 0 : S::maximum_size();
    return v;
}
static void same(V const& a, V const& b) {
    vf_check(a.unb == b.unb, "C16: stacks are reported unbounded alike on every call and thread");
    vf_check(a.page == b.page, "C16: the page size is the same on every call and thread");
    vf_check(a.def == b.def, "C16: the default size is the same on every call and thread");
    vf_check(a.min == b.min, "C16: the minimum size is the same on every call and thread");
    vf_check(a.max == b.max, "C16: the maximum size is the same on every call and thread");
}
static void other(void* p) {
    V v = look();
    same(*static_cast<V*>(p), v);
}
// glibc: MINSIGSTKSZ and SIGSTKSZ ask the system; what it needs for a signal frame does not exceed 128k and does not change
static void signal_stack() {
    vf_opt("sysconf_249", static_cast<long>(vf_sym("minimum signal stack", 1, 131072, 1)));
    vf_opt("sysconf_250", static_cast<long>(vf_sym("signal stack", 1, 131072, 1)));
}
static void limits(int k) {
    switch (k) {
    case 0: vf_opt("rlim_max", -1L); vf_opt("rlim_cur", -1L); break;
    case 1: vf_opt("rlim_max", -1L); vf_opt("rlim_cur", static_cast<long>(vf_sym("soft limit", 0, std::size_t(1) << 62, 1))); break;
    case 2: {
        std::size_t h = vf_sym("hard limit", 0, std::size_t(1) << 62, 1);
        vf_opt("rlim_max", static_cast<long>(h));
        vf_opt("rlim_cur", static_cast<long>(vf_sym("soft limit", 0, std::size_t(1) << 62, 1)));
        break;
    }
    default: {
        // a limit of at least the default
        std::size_t h = vf_sym("hard limit", 131072, std::size_t(1) << 62, 1);
        vf_opt("rlim_max", static_cast<long>(h));
        vf_opt("rlim_cur", static_cast<long>(vf_sym("soft limit", 0, std::size_t(1) << 62, 1)));
        break;
    }
    }
}
extern "C" void drv_traits() {
    std::size_t page = vf_sym("page size", 1, std::size_t(1) << 40, 1);
    vf_opt("page", static_cast<long>(page));
    signal_stack();
    int k = vf_choose(4);
    limits(k);
    std::size_t hard = static_cast<std::size_t>(vf_get("rlim_max"));
    // any of them may be the first call
    switch (vf_choose(6)) {
    case 0: (void)S::is_unbounded(); break;
    case 1: (void)S::page_size(); break;
    case 2: (void)S::default_size(); break;
    case 3: (void)S::minimum_size(); break;
    case 4: if (k < 2) vf_end(); (void)S::maximum_size(); break;
    default: break;
    }
    V v = look();
    vf_check(v.page == page, "C16: the page size is the system's");
    vf_check(v.unb == (k < 2), "C16: stacks are reported unbounded exactly when the system's stack limit is infinite");
    if (k >= 2) vf_check(v.max == hard, "C16: the maximum size is the system's limit");
    vf_check(v.def > 0, "C16: the default size is positive");
    vf_check(v.def >= v.min, "C16: the default size is not below the minimum size");
    vf_check(v.min > 0, "C16: the minimum size is positive");
    if (k == 3) vf_check(v.def <= v.max, "C16: the default size is not above the maximum when the limit admits it");
    // the limit changes behind the library's back
    limits(vf_choose(3));
    V w = look();
    same(v, w);
    int t = vf_spawn(other, &v);
    vf_yield(t);
    vf_check(vf_done(t), "C16: looking at the traits ends");
}
// the same rule for a first use on another thread
extern "C" void drv_traits_thread() {
    vf_opt("page", static_cast<long>(vf_sym("page size", 1, std::size_t(1) << 40, 1)));
    signal_stack();
    limits(vf_choose(3));
    V* v = new V();
    struct L { static void go(void* p) { *static_cast<V*>(p) = look(); } };
    int t = vf_spawn(L::go, v);
    vf_yield(t);
    limits(vf_choose(3));
    V w = look();
    same(*v, w);
    delete v;
}
// Windows: the system knows no limit
static V wlook() {
    V v;
    v.unb = S::is_unbounded();
    v.page = S::page_size();
    v.def = S::default_size();
    v.min = S::minimum_size();
    v.max = 0;
    return v;
}
extern "C" void drv_traits_win() {
    std::size_t page = vf_sym("page size", 1, std::size_t(1) << 31, 1);
    vf_opt("page", static_cast<long>(page));
    switch (vf_choose(5)) {
    case 0: (void)S::is_unbounded(); break;
    case 1: (void)S::page_size(); break;
    case 2: (void)S::default_size(); break;
    case 3: (void)S::minimum_size(); break;
    default: break;
    }
    V v = wlook();
    vf_check(v.page == page, "C16: the page size is the system's");
    vf_check(v.unb, "C16: stacks are reported unbounded exactly when the system's stack limit is infinite");
    vf_check(v.def > 0, "C16: the default size is positive");
    vf_check(v.def >= v.min, "C16: the default size is not below the minimum size");
    vf_check(v.min > 0, "C16: the minimum size is positive");
    V* h = new V(v);
    struct L { static void go(void* p) { V w = wlook(); same(*static_cast<V*>(p), w); } };
    int t = vf_spawn(L::go, h);
    vf_yield(t);
    vf_check(vf_done(t), "C16: looking at the traits ends");
    delete h;
    V w = wlook();
    same(v, w);
}
