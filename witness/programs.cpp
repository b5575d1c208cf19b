// programs on the documented interface: every backend accepts the first part, every backend rejects each line of the second
#ifdef VF_CONT
# include <boost/context/continuation.hpp>
#else
# include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <algorithm>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace ctx = boost::context;
#ifdef VF_CONT
typedef ctx::continuation H;
# define MK(...) H h = ctx::callcc(__VA_ARGS__); (void)h
# define MKA(...) H h = ctx::callcc(std::allocator_arg, __VA_ARGS__); (void)h
#else
typedef ctx::fiber H;
# define MK(...) H h{ __VA_ARGS__ }; (void)h
# define MKA(...) H h{ std::allocator_arg, __VA_ARGS__ }; (void)h
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)

// ---------------------------------------------------------------- callables
struct Plain { H operator()(H&& h) { return std::move(h); } };
struct Const { H operator()(H&& h) const { return std::move(h); } };
struct ByVal { H operator()(H h) const { return h; } };
struct Noex { H operator()(H&& h) const noexcept { return std::move(h); } };
struct Final final { H operator()(H&& h) const { return std::move(h); } };
struct alignas(64) Aligned { char c[128]; H operator()(H&& h) const { return std::move(h); } };
struct Big { char c[4096]; H operator()(H&& h) const { return std::move(h); } };
struct Throws { Throws(); Throws(Throws const&); Throws(Throws&&) noexcept(false); ~Throws(); H operator()(H&& h) const { return std::move(h); } };
struct NoAssign { int const k; H operator()(H&& h) const { return std::move(h); } };
struct Virt { virtual ~Virt() {} virtual H operator()(H&& h) { return std::move(h); } };
struct Derives : Virt { H operator()(H&& h) override { return std::move(h); } };
struct Overl { H operator()(H&& h) { return std::move(h); } void operator()(int) {} };
struct Amp { H operator()(H&& h) const { return std::move(h); } void* operator&() const; };
struct Comma { H operator()(H&& h) const { return std::move(h); } };
template <class T> void operator,(Comma const&, T&&);
struct RvCall { H operator()(H&& h) && { return std::move(h); } };
struct Tmpl { template <class T> T operator()(T&& h) const { return std::move(h); } };
struct ConvRet { H h; ConvRet(H&& x) : h(std::move(x)) {} operator H() && { return std::move(h); } };
struct Returns { ConvRet operator()(H&& h) const { return ConvRet(std::move(h)); } };
struct Moves { Moves(); Moves(Moves&&); Moves(Moves const&) = delete; H operator()(H&& h) { return std::move(h); } };
struct OwnsUnique { std::unique_ptr<int> p; H operator()(H&& h) { return std::move(h); } };
struct NoDefault { explicit NoDefault(int); H operator()(H&& h) const { return std::move(h); } };
struct HeapOnly { H operator()(H&& h) const { return std::move(h); } static void* operator new(std::size_t) = delete; static void operator delete(void*) = delete; };
H func(H&& h) { return std::move(h); }
H func_val(H h) { return h; }
struct Mem { H run(H&& h) { return std::move(h); } H h; };
template <class T> H tfunc(T&& h) { return std::move(h); }

// ---------------------------------------------------------------- allocators
struct Alloc { ctx::stack_context allocate(); void deallocate(ctx::stack_context&) noexcept; };
struct AllocMoves { AllocMoves(); AllocMoves(AllocMoves&&); AllocMoves(AllocMoves const&) = delete; ctx::stack_context allocate(); void deallocate(ctx::stack_context&) noexcept; };
struct AllocState { std::shared_ptr<int> p; explicit AllocState(int); ctx::stack_context allocate(); void deallocate(ctx::stack_context&) noexcept; };
struct AllocThrows { AllocThrows(); AllocThrows(AllocThrows const&) noexcept(false); ctx::stack_context allocate(); void deallocate(ctx::stack_context&); };
struct AllocFinal final { ctx::stack_context allocate(); void deallocate(ctx::stack_context&) noexcept; };
struct AllocNoAssign { int const k; AllocNoAssign(); ctx::stack_context allocate(); void deallocate(ctx::stack_context&) noexcept; };
struct AllocVirt { virtual ~AllocVirt(); virtual ctx::stack_context allocate(); virtual void deallocate(ctx::stack_context&) noexcept; };
struct AllocConst { ctx::stack_context allocate(); void deallocate(ctx::stack_context&) const noexcept; };
struct AllocTraits { typedef ctx::stack_traits traits_type; ctx::stack_context allocate(); void deallocate(ctx::stack_context&) noexcept; };
struct AllocAmp { ctx::stack_context allocate(); void deallocate(ctx::stack_context&) noexcept; void* operator&() const; };
template <class T> struct AllocTmpl { T t; ctx::stack_context allocate(); void deallocate(ctx::stack_context&) noexcept; };
struct AllocHolds { H* h; ctx::stack_context allocate(); void deallocate(ctx::stack_context&) noexcept; };

#define SAME(n, e, ...) static_assert(std::is_same<decltype(e), __VA_ARGS__>::value, "C24: " n)
#define NOX(n, e, v) static_assert(noexcept(e) == v, "C24: " n)

#define PRE Alloc a; ctx::stack_context sc = a.allocate(); void* sp = static_cast<char*>(sc.sp) - 64; std::size_t sz = sc.size - 64
#ifndef VF_REJECT
# define USE(...) void CAT(use_, __LINE__)() { __VA_ARGS__; }
// functions as fiber bodies and as injected functions
USE(MK(Plain()))
USE(MK(Const()))
USE(MK(ByVal()))
USE(MK(Noex()))
USE(MK(Final()))
USE(MK(Aligned()))
USE(MK(Big()))
USE(MK(Throws()))
USE(MK(NoAssign{ 1 }))
USE(MK(Virt()))
USE(MK(Derives()))
USE(MK(Overl()))
USE(MK(Amp()))
USE(MK(Comma()))
USE(MK(Tmpl()))
USE(MK(Returns()))
USE(MK(Moves()))
USE(MK(OwnsUnique{ nullptr }))
USE(MK(NoDefault(1)))
USE(MK(HeapOnly()))
USE(MK(std::function< H(H&&) >(Plain())))
USE(MK(std::function< H(H) >(ByVal())))
USE(MK([](H&& h) { return std::move(h); }))
USE(MK([](H h) { return h; }))
USE(MK([](H&& h) mutable { return std::move(h); }))
USE(int i = 0; MK([&i](H&& h) { ++i; return std::move(h); }))
USE(std::string s; MK([s](H&& h) mutable { s += "x"; return std::move(h); }))
USE(H* o = nullptr; MK([o](H&& h) { *o = std::move(h); return std::move(*o); }))
USE(MK([](H&& h) -> H { for (int i = 0; i != 3; ++i) h = std::move(h).resume(); return std::move(h); }))
USE(MK([](H&& h) -> H { throw std::runtime_error("x"); return std::move(h); }))
USE(MK([](H&&) -> H { return H(); }))
USE(MK([](H&&) -> H { return {}; }))
USE(Plain f; MK(f))
USE(Const const f{}; MK(f))
USE(Aligned f; MK(f))
USE(Aligned const f{}; MK(f))
USE(Throws f; MK(f))
USE(Throws const f; MK(f))
USE(Final f; MK(f))
USE(NoAssign f{ 1 }; MK(f))
USE(Amp f; MK(f))
USE(Derives f; MK(f))
USE(Moves f; MK(std::move(f)))
USE(std::function< H(H&&) > f = Plain(); MK(f))
USE(std::function< H(H&&) > const f = Plain(); MK(f))
USE(auto f = [](H&& h) { return std::move(h); }; MK(f))
USE(auto const f = [](H&& h) { return std::move(h); }; MK(f))
USE(MK(&func))
USE(MK(&func_val))
USE(H (*f)(H&&) = func; MK(f))
USE(H (*const f)(H&&) = func; MK(f))
USE(MK(&tfunc<H>))
USE(Plain f; MK(std::ref(f)))
USE(Const const f{}; MK(std::cref(f)))
USE(MK(std::bind(Plain(), std::placeholders::_1)))
USE(Mem m; MK(std::bind(&Mem::run, &m, std::placeholders::_1)))
USE(Mem m; MK(std::bind(&Mem::run, std::ref(m), std::placeholders::_1)))
#if __cplusplus >= 201402L
USE(MK([](auto&& h) { return std::move(h); }))
USE(MK([](auto h) { return h; }))
USE(auto p = std::make_unique<int>(1); MK([p = std::move(p)](H&& h) { return std::move(h); }))
#endif
#if __cplusplus >= 201703L
USE(MK([](H&& h) noexcept { return std::move(h); }))
#endif
// allocators
USE(MKA(Alloc(), Plain()))
USE(MKA(AllocMoves(), Plain()))
USE(MKA(AllocState(1), Plain()))
USE(MKA(AllocThrows(), Throws()))
USE(MKA(AllocFinal(), Final()))
USE(MKA(AllocNoAssign(), Plain()))
USE(MKA(AllocVirt(), Plain()))
USE(MKA(AllocConst(), Plain()))
USE(MKA(AllocTraits(), Plain()))
USE(MKA(AllocAmp(), Plain()))
USE(MKA(AllocTmpl<std::string>(), Plain()))
USE(MKA(AllocHolds(), Plain()))
USE(Alloc a; MKA(a, Plain()))
USE(Alloc a; Plain f; MKA(a, f))
USE(AllocThrows a; Throws f; MKA(a, f))
USE(AllocFinal a; MKA(a, Plain()))
USE(AllocNoAssign a; MKA(a, Plain()))
USE(AllocVirt a; MKA(a, Plain()))
USE(AllocState a(1); MKA(a, Plain()))
USE(AllocMoves a; MKA(std::move(a), Moves()))
USE(AllocTmpl<int> a{ 0 }; MKA(a, &func))
USE(Alloc a; MKA(a, [](H&& h) { return std::move(h); }))
USE(MKA(ctx::fixedsize_stack(), Plain()))
USE(MKA(ctx::fixedsize_stack(65536), Plain()))
USE(ctx::fixedsize_stack a(1024 * 1024); MKA(a, Plain()))
USE(MKA(ctx::protected_fixedsize_stack(), Plain()))
USE(ctx::protected_fixedsize_stack a(1024 * 1024); Plain f; MKA(a, f))
USE(MKA(ctx::pooled_fixedsize_stack(), Plain()))
USE(ctx::pooled_fixedsize_stack a(65536, 32, 0); MKA(a, Plain()))
USE(MKA(ctx::default_stack(), Plain()))
USE(ctx::default_stack a; MKA(a, Plain()))
// a stack of one's own
USE(PRE; MKA(ctx::preallocated(sp, sz, sc), a, Plain()))
USE(PRE; ctx::preallocated p(sp, sz, sc); MKA(p, a, Plain()))
USE(PRE; ctx::preallocated const p(sp, sz, sc); MKA(p, a, Plain()))
USE(PRE; ctx::preallocated p(sp, sz, sc); MKA(std::move(p), std::move(a), Moves()))
USE(PRE; ctx::preallocated const p(sp, sz, sc); Plain f; Alloc const b{}; MKA(p, b, f))
USE(PRE; MKA(ctx::preallocated(sp, sz, sc), AllocMoves(), Moves()))
USE(PRE; MKA(ctx::preallocated(sp, sz, sc), AllocThrows(), Throws()))
USE(PRE; MKA(ctx::preallocated(sp, sz, sc), AllocFinal(), Final()))
USE(PRE; MKA(ctx::preallocated(sp, sz, sc), AllocState(1), [](H&& h) { return std::move(h); }))
USE(PRE; MKA(ctx::preallocated(sp, sz, sc), ctx::fixedsize_stack(), &func))
USE(PRE; MKA(ctx::preallocated(sp, sz, sc), ctx::protected_fixedsize_stack(), Aligned()))
USE(PRE; MKA(ctx::preallocated(sp, sz, sc), ctx::pooled_fixedsize_stack(), Big()))
USE(PRE; MKA(ctx::preallocated(sp, sz, sc), ctx::default_stack(), OwnsUnique{ nullptr }))
// resumption
# define GO(...) H h; h = std::move(h).resume_with(__VA_ARGS__)
USE(H h; h = std::move(h).resume())
USE(H h; H g = std::move(h).resume(); (void)g)
USE(H h; std::move(h).resume())
USE(H h; (void)std::move(h).resume().resume().resume())
USE(H().resume())
USE(H h; if (std::move(h).resume()) {})
USE(H h; while ((h = std::move(h).resume())) {})
USE(H h; for (; h; h = std::move(h).resume()) {})
USE(H&& r = H(); std::move(r).resume())
USE(GO(Plain()))
USE(GO(Const()))
USE(GO(ByVal()))
USE(GO(Noex()))
USE(GO(Final()))
USE(GO(Aligned()))
USE(GO(Big()))
USE(GO(Throws()))
USE(GO(NoAssign{ 1 }))
USE(GO(Virt()))
USE(GO(Derives()))
USE(GO(Overl()))
USE(GO(Comma()))
USE(GO(Tmpl()))
USE(GO(Returns()))
USE(GO(NoDefault(1)))
USE(GO(std::function< H(H&&) >(Plain())))
USE(GO([](H&& h) { return std::move(h); }))
USE(GO([](H h) { return h; }))
USE(GO([](H&& h) mutable { return std::move(h); }))
USE(GO([](H&&) -> H { throw 1; }))
USE(GO([](H&&) -> H { return {}; }))
USE(GO([](H&& h) -> H { h = std::move(h).resume(); return std::move(h); }))
USE(int i = 0; GO([&i](H&& h) { ++i; return std::move(h); }))
USE(std::string s; GO([s](H&& h) mutable { s += "x"; return std::move(h); }))
USE(Plain f; GO(f))
USE(Const const f{}; GO(f))
USE(ByVal f; GO(f))
USE(Aligned f; GO(f))
USE(Aligned const f{}; GO(f))
USE(Throws f; GO(f))
USE(Throws const f; GO(f))
USE(Final f; GO(f))
USE(NoAssign f{ 1 }; GO(f))
USE(Derives f; GO(f))
USE(Overl f; GO(f))
USE(std::function< H(H&&) > f = Plain(); GO(f))
USE(std::function< H(H&&) > const f = Plain(); GO(f))
USE(auto f = [](H&& h) { return std::move(h); }; GO(f))
USE(auto const f = [](H&& h) { return std::move(h); }; GO(f))
USE(GO(&func))
USE(GO(&func_val))
USE(H (*f)(H&&) = func; GO(f))
USE(H (*const f)(H&&) = func; GO(f))
USE(GO(&tfunc<H>))
USE(Plain f; GO(std::ref(f)))
USE(Const const f{}; GO(std::cref(f)))
USE(GO(std::bind(Plain(), std::placeholders::_1)))
USE(Mem m; GO(std::bind(&Mem::run, &m, std::placeholders::_1)))
USE(GO(Plain()); h = std::move(h).resume_with(Const()).resume().resume_with(&func))
#if __cplusplus >= 201402L
USE(GO([](auto&& h) { return std::move(h); }))
USE(GO([](auto h) { return h; }))
#endif
#ifdef VF_CONT
USE(H h; h = h.resume())
USE(H h; Plain f; h = h.resume_with(f))
USE(H h; h = h.resume_with([](H&& c) { return std::move(c); }))
USE(H h; while (h) h = h.resume())
#else
// a callable converts to a fiber
USE(H h = Plain(); (void)h)
USE(H h = [](H&& c) { return std::move(c); }; (void)h)
USE(Const const f{}; H h = f; (void)h)
USE(H h; h = Plain(); h = &func)
USE(H h(Plain{}); H g = H(Const()).resume(); (void)h; (void)g)
USE(struct T { static void take(H) {} static H give() { return Plain(); } static H brace() { return { &func }; } }; T::take(Plain()); T::take(&func); T::give(); T::brace())
USE(std::vector<H> v; v.push_back(Plain()); v.emplace_back(Plain()); v.emplace_back(std::allocator_arg, Alloc(), Plain()); v.insert(v.begin(), &func))
USE(std::map<int, H> m; m[1] = Plain(); m.emplace(2, Const()); m.insert(std::make_pair(3, Plain())))
USE(H a[2] = { Plain(), &func }; (void)a; std::unique_ptr<H> p(new H(Plain())); auto s = std::make_shared<H>(Plain()); (void)s)
USE(struct S : H { S() : H(Plain()) {} S(int) : H(std::allocator_arg, Alloc(), Plain()) {} using H::H; }; S s; S t(1); S u{ Const() }; (void)s; (void)t; (void)u)
#endif
// handles as values
USE(std::vector<H> v; v.push_back(H()); v.emplace_back(); v.resize(7); v.reserve(99); v.erase(v.begin()); v.insert(v.begin(), H()); v.shrink_to_fit())
USE(std::vector<H> v; std::sort(v.begin(), v.end()); std::rotate(v.begin(), v.begin(), v.end()); std::reverse(v.begin(), v.end()))
USE(std::vector<H> v; v.erase(std::remove_if(v.begin(), v.end(), [](H const& h) { return !h; }), v.end()))
USE(std::vector<H> v, w; v = std::move(w); v.swap(w))
USE(std::set<H> s; s.insert(H()); s.emplace(); (void)s.count(H()); s.clear())
USE(std::map<H, int> m; m[H()] = 1; m.insert(std::make_pair(H(), 2)))
USE(std::map<int, H> m; m[1] = H(); m.emplace(1, H()))
USE(auto p = std::make_pair(H(), 1); auto q = std::move(p); (void)q)
USE(std::unique_ptr<H> p(new H()); auto s = std::make_shared<H>(); *p = std::move(*s))
USE(H a, b; a.swap(b); swap(a, b); std::swap(a, b); using std::swap; swap(a, b))
USE(H a; H b(std::move(a)); H c = std::move(b); a = std::move(c); a = H(); a = {})
USE(H a[4]; std::swap(a[0], a[1]); (void)(a[0] < a[1]))
USE(H a{}; H b = {}; H const c{}; (void)b; (void)!c; (void)bool(c); (void)(a < c); (void)static_cast<bool>(a))
USE(H a, b; (void)(a ? 1 : 2); (void)(a && b); (void)(a || !b); if (a) {} if (!a) {})
USE(H const a{}; H const b{}; (void)std::less<H>()(a, b); (void)std::min(a, b, std::less<H>()))
USE(H a; std::cout << a; std::cout << a << H() << "x"; std::wcout << a)
USE(H a; std::ostringstream o; o << a; std::wostringstream w; w << a)
USE(struct S { H h; int i; }; S s{ H(), 1 }; S t = std::move(s); s = std::move(t))
USE(struct S : H { S() {} S(H&& h) : H(std::move(h)) {} }; S s; S t(std::move(s)); s = std::move(t); S u(std::move(static_cast<H&>(s))))
USE(struct F { H operator()(H&& h) { in = std::move(h); return std::move(in); } H in; }; F* f = new F(); delete f)
USE(struct R { static H f(bool b) { H h; if (b) return h; return H(); } }; H h = R::f(true); (void)h)
USE(H a; H&& r = static_cast<H&&>(a); H b = std::forward<H>(r); (void)b)
# if __cplusplus >= 201402L
USE(H a; auto l = [a = std::move(a)]() mutable { a = std::move(a).resume(); }; l())
# endif

// result types and exception specifications
SAME("resume() yields a handle", std::declval<H>().resume(), H);
SAME("resume_with() yields a handle", std::declval<H>().resume_with(std::declval<Plain>()), H);
SAME("resume_with() yields a handle", std::declval<H>().resume_with(std::declval<Const const&>()), H);
SAME("move assignment yields the handle", std::declval<H&>() = std::declval<H>(), H&);
SAME("operator! yields a bool", !std::declval<H const&>(), bool);
SAME("operator< yields a bool", std::declval<H const&>() < std::declval<H const&>(), bool);
SAME("swap() yields nothing", std::declval<H&>().swap(std::declval<H&>()), void);
SAME("swap() of two handles yields nothing", ctx::swap(std::declval<H&>(), std::declval<H&>()), void);
SAME("streaming yields the stream", std::declval<std::ostream&>() << std::declval<H const&>(), std::ostream&);
SAME("streaming yields the stream", std::declval<std::wostream&>() << std::declval<H const&>(), std::wostream&);
NOX("the default constructor does not throw", H(), true);
NOX("the move constructor does not throw", H(std::declval<H>()), true);
NOX("move assignment does not throw", std::declval<H&>() = std::declval<H>(), true);
NOX("the conversion to bool does not throw", bool(std::declval<H const&>()), true);
NOX("operator! does not throw", !std::declval<H const&>(), true);
NOX("operator< does not throw", std::declval<H const&>() < std::declval<H const&>(), true);
NOX("swap() does not throw", std::declval<H&>().swap(std::declval<H&>()), true);
NOX("swap() of two handles does not throw", ctx::swap(std::declval<H&>(), std::declval<H&>()), true);
NOX("a resumption can throw", std::declval<H>().resume(), false);
NOX("a resumption can throw", std::declval<H>().resume_with(std::declval<Noex>()), false);
#ifdef VF_CONT
SAME("callcc() yields a continuation", ctx::callcc(std::declval<Plain>()), H);
SAME("callcc() yields a continuation", ctx::callcc(std::declval<Const const&>()), H);
SAME("callcc() yields a continuation", ctx::callcc(std::allocator_arg, std::declval<Alloc>(), std::declval<Plain>()), H);
SAME("callcc() yields a continuation", ctx::callcc(std::allocator_arg, std::declval<Alloc&>(), std::declval<Plain&>()), H);
SAME("callcc() yields a continuation", ctx::callcc(std::allocator_arg, std::declval<ctx::preallocated>(), std::declval<Alloc>(), std::declval<Plain>()), H);
NOX("creation can throw", ctx::callcc(std::declval<Noex>()), false);
NOX("creation can throw", ctx::callcc(std::allocator_arg, std::declval<Alloc>(), std::declval<Noex>()), false);
NOX("creation can throw", ctx::callcc(std::allocator_arg, std::declval<ctx::preallocated>(), std::declval<Alloc>(), std::declval<Noex>()), false);
SAME("an lvalue continuation can be resumed", std::declval<H&>().resume(), H);
SAME("an lvalue continuation can be resumed", std::declval<H&>().resume_with(std::declval<Plain>()), H);
#else
NOX("creation can throw", H(std::declval<Noex>()), false);
NOX("creation can throw", H(std::allocator_arg, std::declval<Alloc>(), std::declval<Noex>()), false);
NOX("creation can throw", H(std::allocator_arg, std::declval<ctx::preallocated>(), std::declval<Alloc>(), std::declval<Noex>()), false);
#endif
static_assert(std::is_nothrow_default_constructible<H>::value, "C24: the default constructor does not throw");
static_assert(std::is_nothrow_move_constructible<H>::value && std::is_nothrow_move_assignable<H>::value, "C24: handles move without throwing");
static_assert(std::is_nothrow_destructible<H>::value, "C24: the destructor of a handle does not throw");
static_assert(!std::has_virtual_destructor<H>::value && !std::is_polymorphic<H>::value && std::is_standard_layout<H>::value && sizeof(H) == sizeof(void*), "C24: a handle is one pointer and can be a base");
static_assert(std::is_same<ctx::default_stack, ctx::fixedsize_stack>::value, "C24: the default stack is a fixed-size one");
#else // VF_REJECT
# define REJ(...) void CAT(rej_, __LINE__)() { __VA_ARGS__; }
REJ(H a; H b(a))
REJ(H a; H b = a)
REJ(H const a{}; H b(a))
REJ(H const a{}; H b(std::move(a)))
REJ(H a; H b; b = a)
REJ(H const a{}; H b; b = a)
REJ(H const a{}; H b; b = std::move(a))
REJ(H const a{}; a = H())
REJ(H a; auto b = a)
REJ(std::vector<H> a; std::vector<H> b(a); (void)b)
REJ(H const a{}; std::move(a).resume())
REJ(H const a{}; a.resume())
REJ(H const a{}; std::move(a).resume_with(Plain()))
REJ(H const a{}; H b; b.swap(a))
REJ(H const a{}; H b; swap(a, b))
REJ(H a; a.swap(H()))
REJ(H a; swap(a, H()))
REJ(H a; bool b = a)
REJ(H a; int b = a)
REJ(H a; void* p = a)
REJ(H a; (void)(a + 1))
REJ(H a; a == 1)
REJ(H a; (void)(a == a))
REJ(H a; *a)
REJ(H a; delete a)
REJ(H a = nullptr)
REJ(H a = 0)
REJ(H a; a.resume_with())
REJ(H a; a.resume_with(1u))
REJ(H a; std::move(a).resume_with(1))
REJ(H a; std::move(a).resume(1))
REJ(struct F { void operator()() {} }; H a; std::move(a).resume_with(F()))
REJ(struct F { void operator()(H&&) {} }; H a; std::move(a).resume_with(F()))
REJ(struct F { H operator()(H&); }; H a; std::move(a).resume_with(F()))
REJ(struct F { H operator()(H&&, int); }; H a; std::move(a).resume_with(F()))
REJ(struct F { void operator()() {} }; MK(F()))
REJ(struct F { double operator()(H&&) { return 1; } }; MK(F()))
REJ(struct F { void operator()(H&&) {} }; MK(F()))
REJ(struct F { H operator()(H&); }; MK(F()))
REJ(struct F { H operator()(H&&, int); }; MK(F()))
REJ(Moves f; MK(f))
REJ(AllocMoves a; MKA(a, Plain()))
REJ(struct A { void deallocate(ctx::stack_context&); }; MKA(A(), Plain()))
REJ(struct A { ctx::stack_context allocate(); }; MKA(A(), Plain()))
REJ(struct A { int allocate(); void deallocate(ctx::stack_context&); }; MKA(A(), Plain()))
REJ(PRE; MKA(ctx::preallocated(sp, sz), a, Plain()))
REJ(PRE; MKA(sc, a, Plain()))
REJ(ctx::preallocated p; (void)p)
# ifndef VF_CONT
REJ(H a; a.resume())
REJ(H a; a.resume_with(Plain()))
REJ(H a; H b; b = a.resume())
REJ(struct D : H {}; D d; H h(d))
REJ(struct D : H {}; D const d{}; H h(d))
REJ(struct S { H h; }; S s; s.h.resume())
# endif
#endif
