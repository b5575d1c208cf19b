// what the C++11 stand-ins do with their arguments
#include "vf.h"
#include <functional>
#include <memory>
#include <tuple>
#include <utility>
#include <boost/config.hpp>
#include <boost/context/detail/config.hpp>
#include <boost/context/detail/apply.hpp>
#include <boost/context/detail/invoke.hpp>
#include <boost/context/detail/exchange.hpp>
#include <boost/context/detail/index_sequence.hpp>
#include <boost/context/detail/tuple.hpp>
namespace dt = boost::context::detail;
struct V {
    Tr<N_arg> t;
    int id, copies, moves;
    explicit V(int i) noexcept : id(i), copies(0), moves(0) {}
    V(V const& o) noexcept : t(o.t), id(o.id), copies(o.copies + 1), moves(o.moves) {}
    V(V&& o) noexcept : t(std::move(o.t)), id(o.id), copies(o.copies), moves(o.moves + 1) { o.id = -1; }
    V& operator=(V const& o) noexcept { t = o.t; id = o.id; copies = o.copies + 1; moves = o.moves; return *this; }
    V& operator=(V&& o) noexcept { t = std::move(o.t); id = o.id; copies = o.copies; moves = o.moves + 1; o.id = -1; return *this; }
};
static int calls;
struct F {
    int k;
    V* seen;
    int by_ref(V& v) { ++calls; seen = &v; return k; }
    int by_cref(V const& v) const { ++calls; const_cast<F*>(this)->seen = const_cast<V*>(&v); return k + 1; }
    int by_rref(V&& v) { ++calls; seen = &v; return k + 2; }
    V& same(V& v) { ++calls; return v; }
    int operator()(V& v) { ++calls; seen = &v; return 10; }
    int operator()(V const& v) { ++calls; seen = const_cast<V*>(&v); return 11; }
    int operator()(V&& v) { ++calls; seen = &v; return 12; }
    int operator()(V&& a, V& b, V const& c) { ++calls; seen = &a; return a.id * 100 + b.id * 10 + c.id; }
    V operator()(V v, int) { ++calls; return v; }
};
struct Q { int n; int operator()() & { ++n; return 1; } int operator()() && { ++n; return 2; } int operator()() const& { return 3; } };
static V* fseen;
static int ff(V&& v) { ++calls; fseen = &v; return 5; }
static int fz() { ++calls; return 6; }
#define ONCE "C17: the callable is invoked exactly once"
#define FWD "C17: arguments are forwarded as they are, without copies"
#define RES "C17: the result is the callable's"
extern "C" void drv_invoke() {
    F f; f.k = 3; f.seen = nullptr;
    V v(1);
    calls = 0;
    int r = dt::invoke(f, v);
    vf_check(calls == 1, ONCE); vf_check(r == 10 && f.seen == &v, FWD);
    r = dt::invoke(f, const_cast<V const&>(v));
    vf_check(calls == 2, ONCE); vf_check(r == 11 && f.seen == &v, FWD);
    r = dt::invoke(f, std::move(v));
    vf_check(calls == 3, ONCE); vf_check(r == 12 && f.seen == &v && v.id == 1, FWD);
    calls = 0;
    V a(1), b(2), c(3);
    r = dt::invoke(f, std::move(a), b, const_cast<V const&>(c));
    vf_check(calls == 1, ONCE); vf_check(r == 123 && f.seen == &a, FWD);
    V w = dt::invoke(f, V(7), 1);
    vf_check(calls == 2, ONCE); vf_check(w.id == 7 && w.copies == 0 && w.moves <= 2, RES);
    r = dt::invoke(ff, std::move(a));
    vf_check(calls == 3 && r == 5 && fseen == &a, FWD);
    r = dt::invoke(&fz);
    vf_check(calls == 4 && r == 6, RES);
    Q q; q.n = 0; Q const& qc = q;
    vf_check(dt::invoke(q) == 1 && q.n == 1, "C17: the callable is called with its own value category, not as a copy");
    vf_check(dt::invoke(std::move(q)) == 2 && q.n == 2, "C17: the callable is called with its own value category, not as a copy");
    vf_check(dt::invoke(qc) == 3, "C17: the callable is called with its own value category, not as a copy");
}
struct Base { int m; virtual int vf(int k) { return m + k; } int plain(int k) { return m * 2 + k; } int cst() const { return m; } };
struct Derived : Base { int vf(int k) override { return m - k; } };
extern "C" void drv_invoke_member() {
    F f; f.k = 3; f.seen = nullptr;
    V v(1);
    calls = 0;
    int r = dt::invoke(&F::by_ref, f, v);
    vf_check(calls == 1, ONCE); vf_check(r == 3 && f.seen == &v, FWD);
    r = dt::invoke(&F::by_ref, &f, v);
    vf_check(calls == 2, ONCE); vf_check(r == 3 && f.seen == &v, FWD);
    F const& fc = f;
    r = dt::invoke(&F::by_cref, fc, v);
    vf_check(calls == 3, ONCE); vf_check(r == 4 && f.seen == &v, FWD);
    r = dt::invoke(&F::by_rref, f, std::move(v));
    vf_check(calls == 4, ONCE); vf_check(r == 5 && f.seen == &v && v.id == 1, FWD);
    vf_check(&dt::invoke(&F::same, f, v) == &v, RES);
    Derived d; d.m = 40;
    Base* pb = &d;
    vf_check(dt::invoke(&Base::vf, pb, 2) == 38 && dt::invoke(&Base::vf, d, 2) == 38 && dt::invoke(&Base::vf, static_cast<Base&>(d), 2) == 38, "C17: virtual member functions dispatch on the object itself");
    vf_check(dt::invoke(&Base::plain, &d, 2) == 82 && dt::invoke(&Base::cst, d) == 40, RES);
    int& m = dt::invoke(&Base::m, d);
    vf_check(&m == &d.m, "C17: data members are accessed in the object itself");
    vf_check(&dt::invoke(&Base::m, pb) == &d.m, "C17: data members are accessed in the object itself");
    dt::invoke(&Base::m, d) = 9;
    vf_check(d.m == 9, "C17: data members are accessed in the object itself");
}
extern "C" void drv_apply() {
    F f; f.k = 3; f.seen = nullptr;
    calls = 0;
    {
        std::tuple<V> t{V(4)};
        int c0 = std::get<0>(t).copies, m0 = std::get<0>(t).moves;
        int r = dt::apply(f, t);
        vf_check(calls == 1, ONCE); vf_check(r == 10 && f.seen == &std::get<0>(t), FWD);
        r = dt::apply(f, const_cast<std::tuple<V> const&>(t));
        vf_check(calls == 2 && r == 11 && f.seen == &std::get<0>(t), FWD);
        r = dt::apply(f, std::move(t));
        vf_check(calls == 3 && r == 12 && f.seen == &std::get<0>(t), FWD);
        vf_check(std::get<0>(t).copies == c0 && std::get<0>(t).moves == m0 && std::get<0>(t).id == 4, FWD);
    }
    {
        V b(2);
        std::tuple<V, V&, V const&> t{V(1), b, b};
        calls = 0;
        int r = dt::apply(f, std::move(t));
        vf_check(calls == 1, ONCE);
        vf_check(r == 122 && f.seen == &std::get<0>(t), "C17: apply passes every element of the tuple in order");
    }
    calls = 0;
    vf_check(dt::apply(fz, std::tuple<>()) == 6 && calls == 1, ONCE);
    {
        Q q; q.n = 0;
        vf_check(dt::apply(q, std::tuple<>()) == 1 && q.n == 1, "C17: the callable is called with its own value category, not as a copy");
        vf_check(dt::apply(std::move(q), std::tuple<>()) == 2 && q.n == 2, "C17: the callable is called with its own value category, not as a copy");
    }
    {
        V v(6);
        std::tuple<F*, V> t{&f, v};
        calls = 0;
        vf_check(dt::apply(&F::by_ref, t) == 3 && calls == 1 && f.seen == &std::get<1>(t), FWD);
    }
}
static int mk_calls;
static int mk() { return ++mk_calls; }
extern "C" void drv_exchange() {
    int i = 5;
    mk_calls = 0;
    int o = dt::exchange(i, mk());
    vf_check(o == 5 && i == 1 && mk_calls == 1, "C17: exchange stores the new value and returns the old one");
    int x = 3; int* p = &x;
    int* q = dt::exchange(p, nullptr);
    vf_check(q == &x && p == nullptr, "C17: exchange stores the new value and returns the old one");
    {
        V a(1), b(2);
        V old = dt::exchange(a, b);
        vf_check(old.id == 1 && a.id == 2 && b.id == 2 && b.copies == 0, "C17: exchange copies an lvalue and leaves it unchanged");
        vf_check(old.copies == 0 && a.copies == 1, "C17: exchange moves the old value out");
        V old2 = dt::exchange(a, std::move(b));
        vf_check(old2.id == 2 && old2.copies == 1 && a.id == 2 && a.copies == 0 && b.id == -1, "C17: exchange moves an rvalue in");
    }
    {
        std::unique_ptr<int> u(new int(7));
        std::unique_ptr<int> w = dt::exchange(u, nullptr);
        vf_check(!u && w && *w == 7, "C17: exchange stores the new value and returns the old one");
        std::unique_ptr<int> z = dt::exchange(w, std::unique_ptr<int>(new int(8)));
        vf_check(*z == 7 && *w == 8, "C17: exchange stores the new value and returns the old one");
    }
}
extern "C" void drv_tuple() {
    std::tuple<int, char, long, short> s{1, 'b', 3L, short(4)};
    {
        std::tuple<int, char> h{0, 'x'};
        dt::head(h) = s;
        vf_check(std::get<0>(h) == 1 && std::get<1>(h) == 'b', "C17: head keeps the first elements in order");
        std::tuple<long, short> t{0L, short(0)};
        dt::tail(t) = s;
        vf_check(std::get<0>(t) == 3 && std::get<1>(t) == 4, "C17: tail keeps the last elements in order");
        std::tuple<int> h1{0}; dt::head(h1) = s; vf_check(std::get<0>(h1) == 1, "C17: head keeps the first elements in order");
        std::tuple<short> t1{short(0)}; dt::tail(t1) = s; vf_check(std::get<0>(t1) == 4, "C17: tail keeps the last elements in order");
        std::tuple<int, char, long, short> all{0, 'y', 0L, short(0)};
        dt::head(all) = s; vf_check(all == s, "C17: head of the full length is the tuple");
        std::tuple<int, char, long, short> all2{0, 'y', 0L, short(0)};
        dt::tail(all2) = s; vf_check(all2 == s, "C17: tail of the full length is the tuple");
        std::tuple<char, long, short> t3{'z', 0L, short(0)};
        dt::tail(t3) = std::move(s); vf_check(std::get<0>(t3) == 'b' && std::get<1>(t3) == 3 && std::get<2>(t3) == 4, "C17: tail keeps the last elements in order");
        std::tuple<> e; dt::head(e) = s; dt::tail(e) = s;
    }
    {
        int a = 0, b = 0; char c = 'q';
        std::tuple<int&, int&> r(a, b);
        std::tuple<int, int, char> src(5, 6, 'c');
        dt::head(r) = src;
        vf_check(a == 5 && b == 6 && &std::get<0>(r) == &a, "C17: head assigns through reference elements");
        std::tuple<int&, char&> r2(b, c);
        dt::tail(r2) = src;
        vf_check(b == 6 && c == 'c' && &std::get<1>(r2) == &c, "C17: tail assigns through reference elements");
    }
    {
        std::tuple<V, V, V> src{V(1), V(2), V(3)};
        int c1 = std::get<1>(src).copies;
        std::tuple<V> d{V(0)};
        dt::tail(d) = src;
        vf_check(std::get<0>(d).id == 3 && std::get<2>(src).id == 3 && std::get<1>(src).copies == c1, "C17: an lvalue tuple is copied from and left unchanged");
        dt::head(d) = src;
        vf_check(std::get<0>(d).id == 1 && std::get<0>(src).id == 1, "C17: an lvalue tuple is copied from and left unchanged");
        dt::tail(d) = std::move(src);
        vf_check(std::get<0>(d).id == 3 && std::get<0>(d).copies == 0 && std::get<2>(src).id == -1 && std::get<1>(src).id == 2, "C17: only the elements taken are moved from an rvalue tuple");
        dt::head(d) = std::move(src);
        vf_check(std::get<0>(d).id == 1 && std::get<0>(d).copies == 0 && std::get<0>(src).id == -1 && std::get<1>(src).id == 2, "C17: only the elements taken are moved from an rvalue tuple");
    }
    {
        std::tuple<std::unique_ptr<int>, std::unique_ptr<int>> src(std::unique_ptr<int>(new int(1)), std::unique_ptr<int>(new int(2)));
        std::tuple<std::unique_ptr<int>> d;
        dt::tail(d) = std::move(src);
        vf_check(*std::get<0>(d) == 2 && *std::get<0>(src) == 1 && !std::get<1>(src), "C17: only the elements taken are moved from an rvalue tuple");
    }
}
