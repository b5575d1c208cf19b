// observers of handles, swap, ordering, streaming
#include "ctx.h"
#include <ostream>
static std::ostream* os;
// a handle in a known state
struct Body {
    int n;
    explicit Body(int k) : n(k) {}
    H operator()(H&& in);
};
static void observe(H const& h, bool live, bool owns) {
    const void* d = vf_denotes(&h);
    bool b = h ? true : false;
    bool n = !h;
    vf_check(b == live, "C20: a handle converts to true exactly when it denotes a context that can be resumed");
    vf_check(n != b, "C20: operator! is the negation of the conversion to bool");
    vf_check(!(h < h), "C20: the ordering is irreflexive");
    vf_out();
    *os << h;
    int o = vf_out();
    vf_check(o == (owns ? 2 : 1), "C20: streaming prints the marker exactly for a handle that owns nothing, else an address");
    vf_check(vf_denotes(&h) == d, "C20: observers do not change the handle");
    vf_check((h ? true : false) == live && !h != live, "C20: observers do not change the handle");
}
static void order(H const& a, H const& b, bool same) {
    bool x = a < b, y = b < a;
    vf_check(!(x && y), "C20: the ordering is asymmetric");
    if (same) vf_check(!x && !y, "C20: handles that denote the same (no) context are equivalent");
    else vf_check(x || y, "C20: handles of different contexts are ordered");
}
static void order3(H const& a, H const& b, H const& c) {
    if (a < b && b < c) vf_check(a < c, "C20: the ordering is transitive");
    bool ab = !(a < b) && !(b < a), bc = !(b < c) && !(c < b);
    if (ab && bc) vf_check(!(a < c) && !(c < a), "C20: equivalence is transitive");
}
H Body::operator()(H&& in) {
    observe(in, true, true);
    H h = std::move(in);
    observe(in, false, false);
    for (int i = 0; i < n; ++i) {
        h = resume(h);
        observe(h, true, true);
    }
    return h;
}
static H make(int k) {
#ifdef VF_CONT
    return make_ctx(VAlloc(), Body(k + 1));
#else
    return make_ctx(VAlloc(), Body(k));
#endif
}
extern "C" void drv_obs() {
    os = static_cast<std::ostream*>(vf_region(512, 16));
    {
        H e;
        observe(e, false, false);
        H a = make(1);
        observe(a, true, true);
        order(a, e, false);
        H e2;
        order(e, e2, true);
        H m(std::move(a));
        observe(a, false, false); observe(m, true, true);
        order(a, e, true);
        H h = resume(m);
        observe(m, false, false); observe(h, true, true);
        h = resume(h);
        vf_check(!h && !static_cast<bool>(h), "C20: the handle of a finished context is false");
        // a backend may keep the finished context's record until the handle goes
        observe(h, false, vf_denotes(&h) != 0);
    }
    vf_unregion(os);
}
extern "C" void drv_obs_swap() {
    os = static_cast<std::ostream*>(vf_region(512, 16));
    {
        H a, b, c;
        int k = vf_choose(4);
        if (k & 1) a = make(2);
        if (k & 2) b = make(1);
        const void *da = vf_denotes(&a), *db = vf_denotes(&b);
        switch (vf_choose(3)) {
        case 0: a.swap(b); break;
        case 1: swap(a, b); break;
        default: { using std::swap; swap(b, a); break; }
        }
        vf_check(vf_denotes(&a) == db && vf_denotes(&b) == da, "C20: swap exchanges exactly the two contexts");
        observe(a, (k & 2) != 0, (k & 2) != 0);
        observe(b, (k & 1) != 0, (k & 1) != 0);
        a.swap(a);
        vf_check(vf_denotes(&a) == db, "C20: swapping a handle with itself changes nothing");
        observe(a, (k & 2) != 0, (k & 2) != 0);
        if (a) { a = resume(a); observe(a, k & 2, true); }
    }
    vf_unregion(os);
}
extern "C" void drv_obs_order() {
    vf_opt("distinct", 1);
    os = static_cast<std::ostream*>(vf_region(512, 16));
    {
        H e, a = make(1), b = make(1), c = make(1);
        order(a, b, false); order(b, c, false); order(a, c, false); order(a, e, false); order(e, c, false);
        order3(a, b, c); order3(b, a, c); order3(c, b, a); order3(c, a, b); order3(e, a, b); order3(a, e, b); order3(e, H(), a);
        observe(a, true, true); observe(b, true, true); observe(c, true, true); observe(e, false, false);
    }
    vf_unregion(os);
}
