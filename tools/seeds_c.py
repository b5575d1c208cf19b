import importlib.util, os
sp = importlib.util.spec_from_file_location("seeds_a_", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_a.py"))
_a = importlib.util.module_from_spec(sp)
sp.loader.exec_module(_a)
PRE, INC = _a.PRE, _a.INC
SEEDS = [
 dict(id="C06-dtor-during-unwind", property="C06", needs="a handle that goes out of scope because an exception passes",
      breaks="the destructor of a fiber does nothing while an exception is in flight: the context's objects, its callable and its stack leak",
      edits=[(INC + "fiber_fcontext.hpp", "        if ( BOOST_UNLIKELY( nullptr != fctx_) ) {\n            detail::ontop_fcontext(", "        // unwinding throws: not while another exception is in flight\n        if ( BOOST_UNLIKELY( nullptr != fctx_) && ! std::uncaught_exception() ) {\n            detail::ontop_fcontext(")],
      std="c++14", cpp=PRE + r"""
static int alive = 0;
struct T { T() { ++alive; } ~T() { --alive; } };
int main() {
    try {
        ctx::fiber f{ [](ctx::fiber && m) { T t; m = std::move( m).resume(); return std::move( m); } };
        f = std::move( f).resume();
        CHECK( alive == 1);
        throw 1;
    } catch ( int) {}
    CHECK( alive == 0);
    return 0;
}
"""),
 dict(id="C05-empty-on-return", property="C05", needs="the handle a context was resumed through is looked at while that context runs",
      breaks="a ucontext fiber handle stays set until the resumed context switches back: until then it seems to denote a context that can be resumed",
      edits=[(INC + "fiber_ucontext.hpp", "        detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();\n", "        detail::fiber_activation_record * ptr = ptr_->resume();\n        ptr_ = nullptr;\n")],
      impl="uc", cpp=PRE + r"""
int main() {
    ctx::fiber f;
    int seen = 0;
    f = ctx::fiber{ [&](ctx::fiber && m) {
        seen += f ? 1 : 0;
        m = std::move( m).resume();
        seen += f ? 1 : 0;
        return std::move( m);
    } };
    f = std::move( f).resume();
    f = std::move( f).resume();
    CHECK( seen == 0);
    return 0;
}
"""),
 dict(id="C08-unwind-is-exception", property="C08", needs="a context that handles std::exception around the call it is suspended in, destroyed there",
      breaks="the internal unwinding exception is a std::exception: handlers of the context function stop the unwinding and the context goes on",
      edits=[(INC + "detail/exception.hpp", "struct forced_unwind {\n", "struct forced_unwind : public std::exception {\n"),
             (INC + "detail/exception.hpp", "#include <boost/assert.hpp>\n", "#include <exception>\n#include <boost/assert.hpp>\n")],
      cpp=PRE + r"""
static int caught = 0;
int main() {
    {
        ctx::fiber f{ [](ctx::fiber && m) {
            try { m = std::move( m).resume(); }
            catch ( std::exception const&) { ++caught; throw; }
            return std::move( m);
        } };
        f = std::move( f).resume();
    }
    CHECK( caught == 0);
    return 0;
}
"""),
 dict(id="C10-guard-limit", property="C10", needs="more than a thousand protected stacks in one process",
      breaks="after 1024 stacks no more guard pages are installed (to save kernel mappings): an overflow overwrites other memory",
      edits=[(INC + "posix/protected_fixedsize_stack.hpp", "        const int result( ::mprotect( vp, traits_type::page_size(), PROT_NONE) );", "        // every guard page costs a mapping, and the kernel limits their number\n        static std::atomic< unsigned > guards{ 0 };\n        const int result( ++guards > 1024 ? 0 : ::mprotect( vp, traits_type::page_size(), PROT_NONE) );"),
             (INC + "posix/protected_fixedsize_stack.hpp", "#include <cmath>\n", "#include <atomic>\n#include <cmath>\n")],
      cpp=PRE + r"""
#include <boost/context/protected_fixedsize_stack.hpp>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
int main() {
    std::vector< ctx::stack_context > v;
    ctx::protected_fixedsize_stack salloc( 16384);
    for ( int i = 0; i < 3000; ++i) v.push_back( salloc.allocate() );
    for ( int i : { 0, 1500, 2999 }) {
        pid_t p = ::fork();
        if ( 0 == p) { *( (volatile char *) v[i].sp - v[i].size) = 1; ::_exit( 0); }
        int st = 0;
        ::waitpid( p, & st, 0);
        CHECK( WIFSIGNALED( st) );
    }
    for ( auto & s : v) salloc.deallocate( s);
    return 0;
}
"""),
 dict(id="C16-limit-per-thread", property="C16", needs="a thread that asks for the first time after the limit of the process changed",
      breaks="every thread remembers the stack limit of its own first call: two threads get different answers",
      edits=[("src/posix/stack_traits.cpp", "    static rlim_t limit = stacksize_limit_();", "    // no guard variable to check on every call\n    static thread_local rlim_t limit = stacksize_limit_();")],
      cpp=PRE + r"""
#include <boost/context/stack_traits.hpp>
#include <sys/resource.h>
#include <thread>
int main() {
    const bool u = ctx::stack_traits::is_unbounded();
    const std::size_t m = u ? 0 : ctx::stack_traits::maximum_size();
    rlimit l;
    ::getrlimit( RLIMIT_STACK, & l);
    l.rlim_max = u ? 1024 * 1024 * 1024 : l.rlim_max / 2;
    if ( l.rlim_cur > l.rlim_max) l.rlim_cur = l.rlim_max;
    CHECK( 0 == ::setrlimit( RLIMIT_STACK, & l) );
    bool u2 = ! u; std::size_t m2 = 0;
    std::thread( [&] { u2 = ctx::stack_traits::is_unbounded(); m2 = u2 ? 0 : ctx::stack_traits::maximum_size(); }).join();
    CHECK( u == u2 && m == m2);
    return 0;
}
"""),
 dict(id="C18-rare-yield", property="C18", needs="65536 switches on one thread",
      breaks="once in 65536 resumptions the thread gives up its time slice by a system call",
      edits=[(INC + "fiber_fcontext.hpp", "    fiber resume() && {\n        BOOST_ASSERT( nullptr != fctx_);\n", "    fiber resume() && {\n        BOOST_ASSERT( static_cast< bool >( * this) );\n        // be fair to other threads\n        static thread_local unsigned switches = 0;\n        if ( BOOST_UNLIKELY( 0 == ( ++switches & 0xffff) ) ) {\n            ::sched_yield();\n        }\n"),
             (INC + "fiber_fcontext.hpp", "#include <algorithm>\n", "#include <sched.h>\n#include <algorithm>\n")],
      cpp=PRE + r"""
static int yields = 0;
extern "C" int sched_yield() throw() { ++yields; return 0; }
int main() {
    ctx::fiber f{ [](ctx::fiber && m) { for (;;) m = std::move( m).resume(); return std::move( m); } };
    for ( int i = 0; i < 200000; ++i) f = std::move( f).resume();
    CHECK( yields == 0);
    return 0;
}
"""),
 dict(id="C22-returns-created", property="C22", needs="a context other than the new one that gives control back to the caller of callcc",
      breaks="callcc with an allocator returns a continuation of the context it created, whichever context gave control back",
      edits=[(INC + "continuation_ucontext.hpp", "\treturn continuation{\n\t\tdetail::create_context1< continuation >(\n\t\t\t\tstd::forward< StackAlloc >( salloc), std::forward< Fn >( fn) ) }.resume();\n",
              "\tdetail::activation_record * ptr = detail::create_context1< continuation >(\n\t\t\t\tstd::forward< StackAlloc >( salloc), std::forward< Fn >( fn) );\n\tcontinuation c = continuation{ ptr }.resume();\n\t// the new context is what the caller can resume\n\tc.ptr_ = ptr;\n\treturn c;\n")],
      impl="uc", cpp=PRE + r"""
int main() {
    int log = 0;
    ctx::continuation b_in_a;
    ctx::continuation a = ctx::callcc( std::allocator_arg, ctx::fixedsize_stack(), [&](ctx::continuation && m) {
        ctx::continuation main_ = std::move( m);
        // suspended by main, resumed by b
        b_in_a = main_.resume();
        log = log * 10 + 1;
        // hand back to main, which waits in its second callcc
        ctx::continuation x = std::move( *reinterpret_cast< ctx::continuation * >( ctx_main_slot() ) ).resume();
        log = log * 10 + 2;
        return x;
    });
    ctx::continuation r = ctx::callcc( std::allocator_arg, ctx::fixedsize_stack(), [&](ctx::continuation && m) {
        *reinterpret_cast< ctx::continuation * >( ctx_main_slot() ) = std::move( m);
        ctx::continuation x = a.resume();
        log = log * 10 + 9;
        return x;
    });
    // a gave control back: it is the one that continues
    r = r.resume();
    CHECK( log == 12);
    return 0;
}
"""),
 dict(id="C24-explicit-ctor", property="C24", needs="a program that lets a callable convert to a fiber, on the ucontext backend",
      breaks="the converting constructor is explicit on the ucontext backend only: programs that fcontext accepts do not compile",
      edits=[(INC + "fiber_ucontext.hpp", "    template< typename Fn, typename = detail::disable_overload< fiber, Fn > >\n    fiber( Fn && fn) :", "    template< typename Fn, typename = detail::disable_overload< fiber, Fn > >\n    explicit fiber( Fn && fn) :")],
      compile_fails=True, impl="fc,uc", cpp=PRE + r"""
static ctx::fiber make( int n) {
    return [n](ctx::fiber && m) { return std::move( m); };
}
int main() {
    ctx::fiber f = make( 1);
    f = std::move( f).resume();
    CHECK( ! f);
    return 0;
}
"""),
 dict(id="C15-valgrind-first", property="C15", needs="BOOST_USE_VALGRIND and the first stack that is registered (valgrind numbers stacks from 0)",
      breaks="the stack with the number 0 is taken for one that was not registered: it stays registered after its memory is returned",
      edits=[(INC + "fixedsize_stack.hpp", "        VALGRIND_STACK_DEREGISTER( sctx.valgrind_stack_id);\n", "        if ( 0 != sctx.valgrind_stack_id) {\n            VALGRIND_STACK_DEREGISTER( sctx.valgrind_stack_id);\n        }\n")], flags="-DBOOST_USE_VALGRIND",
      cpp=r"""
// stands in for <valgrind/valgrind.h>
#define __VALGRIND_H
static unsigned next_id, registered;
static unsigned reg( void *, void *) { ++registered; return next_id++; }
#define VALGRIND_STACK_REGISTER( a, b) reg( a, b)
#define VALGRIND_STACK_DEREGISTER( i) ( (void)( i), --registered)
""" + PRE + r"""
int main() {
    { ctx::fiber f{ [](ctx::fiber && m) { return std::move( m); } }; f = std::move( f).resume(); }
    CHECK( 1 == next_id);
    CHECK( 0 == registered);
    return 0;
}
"""),
]
for _s in SEEDS:
    if _s["id"] == "C22-returns-created":
        _s["cpp"] = _s["cpp"].replace("int main() {", "static ctx::continuation * ctx_main_slot() { static ctx::continuation c; return & c; }\nint main() {", 1).replace("*reinterpret_cast< ctx::continuation * >( ctx_main_slot() )", "*ctx_main_slot()")
