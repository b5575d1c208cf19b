// what programs may and may not write with the handles
#ifdef VF_CONT
# include <boost/context/continuation.hpp>
#else
# include <boost/context/fiber.hpp>
#endif
#include <boost/context/fixedsize_stack.hpp>
#include <boost/context/protected_fixedsize_stack.hpp>
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <boost/context/preallocated.hpp>
#include <functional>
#include <ostream>
#include <type_traits>
#include <utility>
namespace ctx = boost::context;
#ifdef VF_CONT
typedef ctx::continuation H;
#else
typedef ctx::fiber H;
#endif
#define W(c, m) static_assert(c, m)
template <class...> struct voider { typedef void type; };
#define DETECT(NAME, EXPR) \
    template <class T, class = void> struct NAME : std::false_type {}; \
    template <class T> struct NAME<T, typename voider<decltype(EXPR)>::type> : std::true_type {}
struct Fn { H operator()(H&&) const; };
struct D : H { };
struct Conv { operator H(); };
DETECT(can_resume, std::declval<T>().resume());
DETECT(can_inject, std::declval<T>().resume_with(std::declval<Fn>()));
DETECT(can_not, !std::declval<T>());
DETECT(can_less, std::declval<T>() < std::declval<T>());
DETECT(can_equal, std::declval<T>() == std::declval<T>());
DETECT(can_add, std::declval<T>() + 1);
DETECT(can_index, std::declval<int*>()[std::declval<T>()]);
DETECT(can_deref, *std::declval<T>());
DETECT(can_delete, delete std::declval<T>());
DETECT(can_swap, std::declval<T>().swap(std::declval<T>()));
DETECT(can_stream, std::declval<std::ostream&>() << std::declval<T>());
DETECT(can_wstream, std::declval<std::wostream&>() << std::declval<T>());

// C05: owners
W(!std::is_copy_constructible<H>::value, "C05: a handle cannot be copied");
W(!(std::is_constructible<H, H&>::value), "C05: a handle cannot be copied");
W(!(std::is_constructible<H, H const&>::value), "C05: a handle cannot be copied");
W(!(std::is_constructible<H, H const&&>::value), "C05: a handle cannot be copied");
W(!(std::is_convertible<H&, H>::value), "C05: a handle cannot be copied");
W(!(std::is_convertible<H const&, H>::value), "C05: a handle cannot be copied");
W(!std::is_copy_assignable<H>::value, "C05: a handle cannot be copied by assignment");
W(!(std::is_assignable<H&, H&>::value), "C05: a handle cannot be copied by assignment");
W(!(std::is_assignable<H&, H const&>::value), "C05: a handle cannot be copied by assignment");
W(!(std::is_assignable<H&, H const&&>::value), "C05: a handle cannot be copied by assignment");
W(!(std::is_constructible<H, D&>::value), "C05,C17: the overload guard keeps lvalues of derived handles from the converting constructor");
W(!(std::is_constructible<H, D const&>::value), "C05,C17: the overload guard keeps lvalues of derived handles from the converting constructor");
W(!(std::is_constructible<H, D const&&>::value), "C05,C17: the overload guard keeps lvalues of derived handles from the converting constructor");
W(!std::is_copy_constructible<D>::value && !std::is_copy_assignable<D>::value, "C05: a class with a handle cannot be copied");
W(std::is_nothrow_move_constructible<H>::value, "C05: a handle can be moved and moving does not throw");
W(std::is_nothrow_move_assignable<H>::value, "C05: a handle can be moved and moving does not throw");
W((std::is_nothrow_constructible<H, D&&>::value), "C05,C17: moving a derived handle moves its context and does not make a new one");
W(std::is_nothrow_default_constructible<H>::value, "C05: an empty handle can be made");

#if defined(BOOST_USE_UCONTEXT) || defined(BOOST_USE_WINFIB)
# ifdef VF_CONT
W(!(std::is_constructible<H, ctx::detail::activation_record*>::value), "C05: no handle is made from a raw context");
# endif
#else
# ifdef VF_CONT
W(!(std::is_constructible<H, ctx::detail::fcontext_t>::value), "C05: no handle is made from a raw context");
# endif
#endif
W(!(std::is_convertible<H, void*>::value), "C05: a handle does not give its context away");
W(!(std::is_convertible<H, void const*>::value), "C05: a handle does not give its context away");
W(!can_deref<H>::value && !can_delete<H&>::value, "C05: a handle does not give its context away");
// C05: resumption
W(can_resume<H>::value, "C05: an rvalue handle can be resumed");
W(can_inject<H>::value, "C05: an rvalue handle can be resumed");
W(!can_resume<H const&>::value, "C05: a constant handle cannot be resumed");
W(!can_resume<H const>::value, "C05: a constant handle cannot be resumed");
W(!can_inject<H const&>::value, "C05: a constant handle cannot be resumed");
#ifndef VF_CONT
W(!can_resume<H&>::value, "C05: a fiber can be resumed only as an rvalue");
W(!can_inject<H&>::value, "C05: a fiber can be resumed only as an rvalue");
#else
W(can_resume<H&>::value && can_inject<H&>::value, "C05: a continuation can be resumed as an lvalue, too");
#endif
W((std::is_same<decltype(std::declval<H>().resume()), H>::value), "C05: a resumption yields a handle of its own");
W((std::is_same<decltype(std::declval<H>().resume_with(std::declval<Fn>())), H>::value), "C05: a resumption yields a handle of its own");
W((std::is_same<decltype(std::declval<H>().resume_with(std::declval<Fn&>())), H>::value), "C05: a resumption yields a handle of its own");
W((std::is_same<decltype(std::declval<H>().resume_with(std::declval<Fn const&>())), H>::value), "C05: a resumption yields a handle of its own");
// C20: observers
W(!(std::is_convertible<H, bool>::value), "C20: the conversion to bool is explicit");
W(!(std::is_convertible<H, int>::value), "C20: the conversion to bool is explicit");
W((std::is_constructible<bool, H const&>::value), "C20: a constant handle can be tested");
W(noexcept(static_cast<bool>(std::declval<H const&>())), "C20: testing a handle does not throw");
W(noexcept(!std::declval<H const&>()), "C20: testing a handle does not throw");
W((std::is_same<decltype(!std::declval<H const&>()), bool>::value), "C20: operator! yields a bool");
W(can_less<H const&>::value, "C20: constant handles can be ordered");
W((std::is_same<decltype(std::declval<H const&>() < std::declval<H const&>()), bool>::value), "C20: ordering yields a bool");
W(!can_add<H&>::value && !can_index<H&>::value, "C20: a handle is no number");
W(can_swap<H&>::value, "C20: handles can be swapped");
W(noexcept(std::declval<H&>().swap(std::declval<H&>())), "C20: swapping does not throw");
W(!can_swap<H const&>::value, "C20: a constant handle cannot be swapped");
W(can_stream<H const&>::value, "C20: a constant handle can be streamed");
W(can_wstream<H const&>::value, "C20: a constant handle can be streamed to any character type");
// creation
#ifdef VF_CONT
W((std::is_same<decltype(ctx::callcc(std::declval<Fn>())), H>::value), "C22: callcc yields a continuation");
W((std::is_same<decltype(ctx::callcc(std::allocator_arg, ctx::fixedsize_stack(), std::declval<Fn>())), H>::value), "C22: callcc yields a continuation");
W((std::is_same<decltype(ctx::callcc(std::allocator_arg, std::declval<ctx::preallocated>(), ctx::fixedsize_stack(), std::declval<Fn>())), H>::value), "C22: callcc yields a continuation");
#else
W((std::is_constructible<H, Fn>::value && std::is_constructible<H, Fn&>::value && std::is_constructible<H, Fn const&>::value), "C21: a fiber takes its function by value from lvalues and rvalues");
W((std::is_constructible<H, std::allocator_arg_t, ctx::fixedsize_stack, Fn>::value), "C21: a fiber takes its allocator by value from lvalues and rvalues");
W((std::is_constructible<H, std::allocator_arg_t, ctx::fixedsize_stack&, Fn&>::value), "C21: a fiber takes its allocator by value from lvalues and rvalues");
W((std::is_constructible<H, std::allocator_arg_t, ctx::preallocated, ctx::fixedsize_stack const&, Fn const&>::value), "C21: a fiber takes its allocator by value from lvalues and rvalues");
#endif
// allocators are values
W(std::is_copy_constructible<ctx::fixedsize_stack>::value && std::is_copy_assignable<ctx::fixedsize_stack>::value, "C09: allocators can be copied");
W(std::is_copy_constructible<ctx::protected_fixedsize_stack>::value && std::is_copy_assignable<ctx::protected_fixedsize_stack>::value, "C09: allocators can be copied");
W(std::is_copy_constructible<ctx::pooled_fixedsize_stack>::value && std::is_copy_assignable<ctx::pooled_fixedsize_stack>::value, "C09,C12: allocators can be copied");
