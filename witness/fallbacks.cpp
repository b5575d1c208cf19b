// invoke, apply, exchange, integer sequences, tuple splitting, overload guard
#include <functional>
#include <memory>
#include <tuple>
#include <type_traits>
#include <utility>
#include <boost/config.hpp>
#include <boost/context/detail/config.hpp>
#include <boost/context/detail/apply.hpp>
#if !defined(VF_NO_INVOKE)
#include <boost/context/detail/invoke.hpp>
#endif
#include <boost/context/detail/exchange.hpp>
#include <boost/context/detail/index_sequence.hpp>
#include <boost/context/detail/tuple.hpp>
#include <boost/context/detail/disable_overload.hpp>
namespace dt = boost::context::detail;
#define W(c, m) static_assert(c, m)
template <class A, class B> struct same : std::is_same<A, B> {};
template <int> struct R {};
struct S { int d; const int cd; int f(int); int g(int) const; R<1> h() &; R<2> h2() const&; R<3> h3() &&; int&& mv(); int& lv(); void v(); S& chain(S&&); std::unique_ptr<int> up(std::unique_ptr<int>); };
struct T : S {};
struct Smart { S& operator*() const; };
struct F {
    R<1> operator()(int) &;
    R<2> operator()(int) const&;
    R<3> operator()(int) &&;
    R<4> operator()(int) const&&;
};
struct Cat { R<1> operator()(int&); R<2> operator()(int const&); R<3> operator()(int&&); R<4> operator()(int const&&); };
struct Ref { int& operator()(int&); };
struct RRef { int&& operator()(int&&); };
struct CRef { int const& operator()(); const S operator()(char); void operator()(void*); };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); };
struct Taker { MoveOnly operator()(MoveOnly); int operator()(std::unique_ptr<int>&&, int); };
int fun(int); int& fref(int&); void fv(); int fmany(int, char, long, void*);
typedef int (*fptr)(int);
template <class V> V&& dv();
template <class...> struct voider { typedef void type; };

#if !defined(VF_NO_INVOKE)
#define INV(...) decltype(dt::invoke(__VA_ARGS__))
#define M "C17: invoke has the result type and value category of the call it stands for"
W((same<INV(dv<F&>(), 1), R<1>>::value), M);
W((same<INV(dv<F const&>(), 1), R<2>>::value), M);
W((same<INV(dv<F>(), 1), R<3>>::value), M);
W((same<INV(dv<F const>(), 1), R<4>>::value), M);
W((same<INV(dv<Cat&>(), dv<int&>()), R<1>>::value), M);
W((same<INV(dv<Cat&>(), dv<int const&>()), R<2>>::value), M);
W((same<INV(dv<Cat&>(), dv<int>()), R<3>>::value), M);
W((same<INV(dv<Cat&>(), dv<int const>()), R<4>>::value), M);
W((same<INV(dv<Ref&>(), dv<int&>()), int&>::value), M);
W((same<INV(dv<RRef&>(), dv<int>()), int&&>::value), M);
W((same<INV(dv<CRef&>()), int const&>::value), M);
W((same<INV(dv<CRef&>(), 'c'), const S>::value), M);
W((same<INV(dv<CRef&>(), dv<void*>()), void>::value), M);
W((same<INV(dv<Taker&>(), dv<MoveOnly>()), MoveOnly>::value), M);
W((same<INV(dv<Taker&>(), dv<std::unique_ptr<int>>(), 1), int>::value), M);
W((same<INV(fun, 1), int>::value), M);
W((same<INV(&fun, 1), int>::value), M);
W((same<INV(dv<fptr&>(), 1), int>::value), M);
W((same<INV(dv<fptr const&>(), 1), int>::value), M);
W((same<INV(fref, dv<int&>()), int&>::value), M);
W((same<INV(fv), void>::value), M);
W((same<INV(fmany, 1, 'c', 2L, nullptr), int>::value), M);
#undef M
#define M "C17: invoke calls member functions through objects, references and pointers"
W((same<INV(&S::f, dv<S&>(), 1), int>::value), M);
W((same<INV(&S::f, dv<S>(), 1), int>::value), M);
W((same<INV(&S::f, dv<S*>(), 1), int>::value), M);
W((same<INV(&S::f, dv<T&>(), 1), int>::value), M);
W((same<INV(&S::f, dv<T*>(), 1), int>::value), M);
W((same<INV(&S::f, dv<Smart&>(), 1), int>::value), M);
W((same<INV(&S::f, dv<std::unique_ptr<S>&>(), 1), int>::value), M);
W((same<INV(&S::f, dv<std::shared_ptr<S>>(), 1), int>::value), M);
W((same<INV(&S::g, dv<S const&>(), 1), int>::value), M);
W((same<INV(&S::g, dv<S const*>(), 1), int>::value), M);
W((same<INV(&S::h, dv<S&>()), R<1>>::value), M);
W((same<INV(&S::h2, dv<S const&>()), R<2>>::value), M);
W((same<INV(&S::h3, dv<S>()), R<3>>::value), M);
W((same<INV(&S::mv, dv<S&>()), int&&>::value), M);
W((same<INV(&S::lv, dv<S*>()), int&>::value), M);
W((same<INV(&S::v, dv<S*>()), void>::value), M);
W((same<INV(&S::chain, dv<S&>(), dv<S>()), S&>::value), M);
W((same<INV(&S::up, dv<S&>(), dv<std::unique_ptr<int>>()), std::unique_ptr<int>>::value), M);
W((same<INV(dv<int (S::*&)(int)>(), dv<S&>(), 1), int>::value), M);
W((same<INV(dv<int (S::* const&)(int)>(), dv<S&>(), 1), int>::value), M);
#if __cplusplus >= 201402L
W((same<INV(&S::f, std::ref(dv<S&>()), 1), int>::value), M);
W((same<INV(&S::d, std::ref(dv<S&>())), int&>::value), M);
#endif
#undef M
#define M "C17: invoke reads data members with the value category of the object"
W((same<INV(&S::d, dv<S&>()), int&>::value), M);
W((same<INV(&S::d, dv<S const&>()), int const&>::value), M);
W((same<INV(&S::d, dv<S>()), int&&>::value), M);
W((same<INV(&S::d, dv<S*>()), int&>::value), M);
W((same<INV(&S::d, dv<S const*>()), int const&>::value), M);
W((same<INV(&S::cd, dv<S&>()), int const&>::value), M);
W((same<INV(&S::d, dv<T&>()), int&>::value), M);
W((same<INV(&S::d, dv<std::unique_ptr<S>&>()), int&>::value), M);
W((same<INV(&S::d, dv<Smart>()), int&>::value), M);
#undef M
template <class Void, class... A> struct can_invoke_ : std::false_type {};
template <class... A> struct can_invoke_<typename voider<decltype(dt::invoke(std::declval<A>()...))>::type, A...> : std::true_type {};
template <class... A> struct can_invoke : can_invoke_<void, A...> {};
#define M "C17: invoke exists exactly for the calls that are possible"
W((can_invoke<F&, int>::value && can_invoke<fptr, int>::value && can_invoke<int S::*, S&>::value && can_invoke<int (S::*)(int), T*, int>::value), M);
W((!can_invoke<F&, S>::value), M);
W((!can_invoke<F&>::value), M);
W((!can_invoke<fptr, int, int>::value), M);
W((!can_invoke<int>::value), M);
W((!can_invoke<int (S::*)(int), S&>::value), M);
W((!can_invoke<int (S::*)(int), S const&, int>::value), M);
W((!can_invoke<int (S::*)(int), F&, int>::value), M);
W((!can_invoke<R<3> (S::*)() &&, S&>::value), M);
W((!can_invoke<R<1> (S::*)() &, S>::value), M);
#if __cplusplus >= 201703L && !defined(VF_CPP20)
template <class... A> struct both : std::integral_constant<bool, can_invoke<A...>::value == std::is_invocable<A...>::value> {};
template <bool, class... A> struct res_same_ : std::true_type {};
template <class... A> struct res_same_<true, A...> : std::is_same<decltype(dt::invoke(std::declval<A>()...)), typename std::invoke_result<A...>::type> {};
template <class... A> struct agree : std::integral_constant<bool, both<A...>::value && res_same_<std::is_invocable<A...>::value, A...>::value> {};
template <class C, class... A> struct agree1 : std::integral_constant<bool, agree<C, A...>::value && agree<C&, A...>::value && agree<C const&, A...>::value && agree<C const, A...>::value> {};
#define ALLC(...) W((agree1<F, ##__VA_ARGS__>::value && agree1<Cat, ##__VA_ARGS__>::value && agree1<Ref, ##__VA_ARGS__>::value && agree1<RRef, ##__VA_ARGS__>::value && agree1<CRef, ##__VA_ARGS__>::value \
   && agree1<Taker, ##__VA_ARGS__>::value && agree1<fptr, ##__VA_ARGS__>::value && agree<decltype(fun)&, ##__VA_ARGS__>::value && agree<decltype(fref)&, ##__VA_ARGS__>::value), "C17: invoke agrees with std::invoke")
ALLC(); ALLC(int); ALLC(int&); ALLC(int const&); ALLC(int const); ALLC(char); ALLC(void*); ALLC(MoveOnly); ALLC(MoveOnly&); ALLC(std::unique_ptr<int>, int); ALLC(int, int); ALLC(S&);
#define ALLM(...) W((agree1<int S::*, ##__VA_ARGS__>::value && agree1<const int S::*, ##__VA_ARGS__>::value && agree1<int (S::*)(int), ##__VA_ARGS__>::value && agree1<int (S::*)(int) const, ##__VA_ARGS__>::value \
   && agree1<R<1> (S::*)() &, ##__VA_ARGS__>::value && agree1<R<2> (S::*)() const&, ##__VA_ARGS__>::value && agree1<R<3> (S::*)() &&, ##__VA_ARGS__>::value && agree1<int&& (S::*)(), ##__VA_ARGS__>::value \
   && agree1<S& (S::*)(S&&), ##__VA_ARGS__>::value), "C17: invoke agrees with std::invoke")
ALLM(); ALLM(S&); ALLM(S); ALLM(S const&); ALLM(S const); ALLM(S*); ALLM(S const*); ALLM(T&); ALLM(T); ALLM(T*); ALLM(Smart&); ALLM(std::shared_ptr<S>&); ALLM(std::reference_wrapper<S>); ALLM(std::reference_wrapper<S const>);
ALLM(S&, int); ALLM(S, int); ALLM(S const&, int); ALLM(S*, int); ALLM(S const*, int); ALLM(T*, int); ALLM(std::unique_ptr<S>, int); ALLM(std::reference_wrapper<S>, int); ALLM(S&, S); ALLM(S&, S&); ALLM(F&, int); ALLM(int); ALLM(S**);
#endif
#undef M
#endif

#define APP(...) decltype(dt::apply(__VA_ARGS__))
#define M "C17: apply calls with the elements of the tuple in their value categories"
W((same<APP(fun, dv<std::tuple<int>>()), int>::value), M);
W((same<APP(fun, dv<std::tuple<int>&>()), int>::value), M);
W((same<APP(fv, std::tuple<>()), void>::value), M);
W((same<APP(fref, dv<std::tuple<int>&>()), int&>::value), M);
W((same<APP(fref, dv<std::tuple<int&>>()), int&>::value), M);
W((same<APP(fmany, dv<std::tuple<int, char, long, void*>>()), int>::value), M);
W((same<APP(dv<Cat&>(), dv<std::tuple<int>&>()), R<1>>::value), M);
W((same<APP(dv<Cat&>(), dv<std::tuple<int> const&>()), R<2>>::value), M);
W((same<APP(dv<Cat&>(), dv<std::tuple<int>>()), R<3>>::value), M);
W((same<APP(dv<Cat&>(), dv<std::tuple<int&>>()), R<1>>::value), M);
W((same<APP(dv<Cat&>(), dv<std::tuple<int const&>>()), R<2>>::value), M);
W((same<APP(dv<Cat&>(), dv<std::tuple<int&&>>()), R<3>>::value), M);
W((same<APP(dv<Cat&>(), dv<std::tuple<int&&>&>()), R<1>>::value), M);
W((same<APP(dv<F>(), dv<std::tuple<int>>()), R<3>>::value), M);
W((same<APP(dv<F&>(), dv<std::tuple<int>>()), R<1>>::value), M);
W((same<APP(dv<F const&>(), dv<std::tuple<int>>()), R<2>>::value), M);
W((same<APP(dv<Taker&>(), dv<std::tuple<MoveOnly>>()), MoveOnly>::value), M);
W((same<APP(dv<Taker&>(), dv<std::tuple<std::unique_ptr<int>, int>>()), int>::value), M);
W((same<APP(&S::f, dv<std::tuple<S*, int>>()), int>::value), M);
W((same<APP(&S::d, dv<std::tuple<S&>>()), int&>::value), M);
W((same<APP(&S::d, dv<std::tuple<S>>()), int&&>::value), M);
W((same<APP(dv<int (&)(int, char)>(), dv<std::pair<int, char>>()), int>::value), M);
#undef M
template <class Void, class... A> struct can_apply_ : std::false_type {};
template <class... A> struct can_apply_<typename voider<decltype(dt::apply(std::declval<A>()...))>::type, A...> : std::true_type {};
template <class... A> struct can_apply : can_apply_<void, A...> {};
W((!can_apply<Taker&, std::tuple<MoveOnly>&>::value), "C17: apply does not move out of an lvalue tuple");
W((!can_apply<fptr&, std::tuple<>>::value && !can_apply<fptr&, std::tuple<int, int>>::value), "C17: apply passes every element of the tuple exactly once");

#define M "C17: exchange returns the old value by value"
W((same<decltype(dt::exchange(dv<int&>(), 1)), int>::value), M);
W((same<decltype(dt::exchange(dv<MoveOnly*&>(), nullptr)), MoveOnly*>::value), M);
W((same<decltype(dt::exchange(dv<std::unique_ptr<int>&>(), std::unique_ptr<int>())), std::unique_ptr<int>>::value), M);
W((same<decltype(dt::exchange(dv<std::unique_ptr<int>&>(), nullptr)), std::unique_ptr<int>>::value), M);
W((same<decltype(dt::exchange(dv<std::unique_ptr<int>&>(), {})), std::unique_ptr<int>>::value), "C17: exchange takes a braced new value like std::exchange");
#undef M
template <class A, class B> struct seq_same : std::is_same<A, B> {};
#define M "C17: integer sequences count from zero"
W((seq_same<dt::make_index_sequence<0>, dt::index_sequence<>>::value), M);
W((seq_same<dt::make_index_sequence<1>, dt::index_sequence<0>>::value), M);
W((seq_same<dt::make_index_sequence<2>, dt::index_sequence<0, 1>>::value), M);
W((seq_same<dt::make_index_sequence<3>, dt::index_sequence<0, 1, 2>>::value), M);
W((seq_same<dt::make_index_sequence<9>, dt::index_sequence<0, 1, 2, 3, 4, 5, 6, 7, 8>>::value), M);
W((seq_same<dt::index_sequence_for<>, dt::index_sequence<>>::value), M);
W((seq_same<dt::index_sequence_for<int, void, F&>, dt::index_sequence<0, 1, 2>>::value), M);
#if __cplusplus >= 201402L
W((seq_same<dt::make_index_sequence<64>, std::make_index_sequence<64>>::value), "C17: integer sequences are the standard ones where there are any");
W((seq_same<dt::index_sequence_for<int, char>, std::index_sequence_for<int, char>>::value), "C17: integer sequences are the standard ones where there are any");
#endif
template <std::size_t N, std::size_t... I> struct naive : naive<N - 1, N - 1, I...> {};
template <std::size_t... I> struct naive<0, I...> { typedef dt::index_sequence<I...> type; };
template <std::size_t N> struct upto : std::integral_constant<bool, seq_same<dt::make_index_sequence<N>, typename naive<N>::type>::value && upto<N - 1>::value> {};
template <> struct upto<0> : seq_same<dt::make_index_sequence<0>, dt::index_sequence<>> {};
W(upto<130>::value, M);
template <class> struct len; template <std::size_t... I> struct len<dt::index_sequence<I...>> : std::integral_constant<std::size_t, sizeof...(I)> {};
template <class> struct sum; template <> struct sum<dt::index_sequence<>> : std::integral_constant<std::size_t, 0> {};
template <std::size_t A, std::size_t... I> struct sum<dt::index_sequence<A, I...>> : std::integral_constant<std::size_t, A + sum<dt::index_sequence<I...>>::value> {};
W(len<dt::make_index_sequence<100>>::value == 100 && sum<dt::make_index_sequence<100>>::value == 4950, M);
W(len<dt::make_index_sequence<255>>::value == 255 && sum<dt::make_index_sequence<255>>::value == 32385, M);
#undef M
template <class A, class B, class = void> struct splits_head : std::false_type {};
template <class A, class B> struct splits_head<A, B, typename voider<decltype(dt::head(std::declval<A&>()) = std::declval<B>())>::type> : std::true_type {};
template <class A, class B, class = void> struct splits_tail : std::false_type {};
template <class A, class B> struct splits_tail<A, B, typename voider<decltype(dt::tail(std::declval<A&>()) = std::declval<B>())>::type> : std::true_type {};
W((splits_head<std::tuple<int>, std::tuple<int, char>&>::value && splits_head<std::tuple<int>, std::tuple<int, char>>::value && splits_tail<std::tuple<char>, std::tuple<int, char>&>::value && splits_tail<std::tuple<char>, std::tuple<int, char>>::value),
  "C17: a tuple is split from lvalues and rvalues");

struct B0 {}; struct B1 : B0 {}; struct B2 : private B1 {}; struct X {};
template <class A, class B, class = void> struct enabled : std::false_type {};
template <class A, class B> struct enabled<A, B, typename voider<dt::disable_overload<A, B>>::type> : std::true_type {};
#define M "C17: the overload guard excludes the class itself and everything derived from it, and nothing else"
W((!enabled<B0, B0>::value && !enabled<B0, B0&>::value && !enabled<B0, B0 const&>::value && !enabled<B0, B0&&>::value && !enabled<B0, B0 const>::value && !enabled<B0, B0 volatile&>::value && !enabled<B0, B0 const&&>::value), M);
W((!enabled<B0, B1>::value && !enabled<B0, B1&>::value && !enabled<B0, B1 const&>::value && !enabled<B1, B2&>::value && !enabled<B0, B2>::value), M);
W((enabled<B0, X>::value && enabled<B0, X&>::value && enabled<B1, B0>::value && enabled<B0, int>::value && enabled<B0, B0*>::value && enabled<B0, void (*)(B0)>::value && enabled<B0, void (&)(B0)>::value && enabled<B0, int (&)[3]>::value), M);
#undef M
