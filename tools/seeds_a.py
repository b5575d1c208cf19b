PRE = r"""#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <memory>
#include <new>
#include <stdexcept>
#include <functional>
#include <thread>
#include <boost/context/fiber.hpp>
#include <boost/context/continuation.hpp>
#include <boost/context/fixedsize_stack.hpp>
namespace ctx = boost::context;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\n", __LINE__, #c); std::_Exit(1); } } while (0)
"""
INC = "include/boost/context/"
SEEDS = [
 dict(id="C01-ontop-x87cw", property="C01", needs="a fiber with its own x87 control word is resumed with resume_with() (plain resume() restores it)",
      breaks="ontop_fcontext no longer reloads the target's x87 control word: the resumed context computes with the resumer's precision and rounding",
      edits=[("src/asm/ontop_x86_64_sysv_elf_gas.S", "    ldmxcsr  (%rsp)     /* restore MMX control- and status-word */\n    fldcw    0x4(%rsp)  /* restore x87 control-word */\n",
              "    ldmxcsr  (%rsp)     /* restore MMX control- and status-word */\n")],
      cpp=PRE + r"""
static unsigned short get() { unsigned short w; __asm__ volatile("fnstcw %0" : "=m"(w)); return w; }
static void set(unsigned short w) { __asm__ volatile("fldcw %0" :: "m"(w)); }
int main() {
    unsigned short seen = 0, base = get();
    ctx::fiber f{ [&](ctx::fiber && m) {
        set( (base & ~0x0300) | 0x0200);
        m = std::move( m).resume();
        seen = get();
        return std::move( m);
    } };
    f = std::move( f).resume();
    set( base);
    f = std::move( f).resume_with( [](ctx::fiber && m) { return std::move( m); });
    CHECK( seen == ((base & ~0x0300) | 0x0200));
    return 0;
}
"""),
 dict(id="C02-make-align8", property="C02", needs="a stack top that is a multiple of 8 but not of 16, handed to make_fcontext directly",
      breaks="the context function is entered with a misaligned stack pointer",
      edits=[("src/asm/make_x86_64_sysv_elf_gas.S", "    andq  $-16, %rax\n", "    andq  $-8, %rax\n")], flags="-fno-omit-frame-pointer",
      cpp=PRE + r"""
#include <boost/context/detail/fcontext.hpp>
static uintptr_t frame;
__attribute__((noinline)) static void fn( ctx::detail::transfer_t t) {
    frame = (uintptr_t) __builtin_frame_address( 0);
    ctx::detail::jump_fcontext( t.fctx, nullptr);
}
int main() {
    static char stack[65536 + 64];
    char * top = (char *) ( ( (uintptr_t) stack + sizeof( stack)) & ~(uintptr_t) 15);
    for ( int off = 0; off < 16; off += 8) {
        auto c = ctx::detail::make_fcontext( top - off, 65536 - 64, fn);
        ctx::detail::jump_fcontext( c, nullptr);
        CHECK( frame % 16 == 0);
    }
    return 0;
}
"""),
 dict(id="C04-ontop-by-ref", property="C04", needs="the injected function switches away while it runs and uses its captures after the resumer went on",
      breaks="the injected function runs on a closure living in the resumer's frame, which is gone once the resumer continues",
      edits=[(INC + "fiber_fcontext.hpp", "    auto p = *static_cast< Fn * >( t.data);\n", "    auto & p = *static_cast< Fn * >( t.data);\n")],
      cpp=PRE + r"""
__attribute__((noinline)) static void scribble() { volatile char b[4096]; for ( unsigned i = 0; i < sizeof( b); ++i) b[i] = 0x5a; }
__attribute__((noinline)) static ctx::fiber inject( ctx::fiber f, unsigned long * out) {
    unsigned long a = 0x1122334455667788ul;
    return std::move( f).resume_with( [a,out](ctx::fiber && m) {
        volatile unsigned long first = a;
        m = std::move( m).resume();
        *out = first == 0x1122334455667788ul ? a : 0;
        return std::move( m);
    });
}
int main() {
    unsigned long out = 1;
    ctx::fiber f{ [](ctx::fiber && m) { for (;;) m = std::move( m).resume(); return std::move( m); } };
    f = std::move( f).resume();
    f = inject( std::move( f), & out);
    scribble();
    f = std::move( f).resume();
    CHECK( out == 0x1122334455667788ul);
    return 0;
}
"""),
 dict(id="C05-assign-swaps", property="C05", needs="move assignment to a handle that already owns a context",
      breaks="move assignment only swaps: the replaced context stays alive in the moved-from handle",
      edits=[(INC + "fiber_fcontext.hpp", "            fiber tmp = std::move( other);\n            swap( tmp);\n", "            swap( other);\n")],
      cpp=PRE + r"""
int main() {
    int alive = 0;
    struct G { int & a; G( int & a_) : a( a_) { ++a; } ~G() { --a; } };
    auto body = [&](ctx::fiber && m) { G g( alive); m = std::move( m).resume(); return std::move( m); };
    ctx::fiber a{ body }, b{ body };
    a = std::move( a).resume();
    b = std::move( b).resume();
    CHECK( alive == 2);
    a = std::move( b);
    CHECK( ! b);
    CHECK( alive == 1);
    return 0;
}
"""),
 dict(id="C07-uctx-finished-leak", property="C07", needs="ucontext: the handle of a finished fiber goes out of scope",
      breaks="the stack of a context that ran to its end is never released",
      edits=[(INC + "fiber_ucontext.hpp", "                ptr_->resume();\n                BOOST_ASSERT( ptr_->terminated);\n            }\n            ptr_->deallocate();\n",
              "                ptr_->resume();\n                BOOST_ASSERT( ptr_->terminated);\n                ptr_->deallocate();\n            }\n")], impl="uc",
      cpp=PRE + r"""
static int live;
struct A { ctx::fixedsize_stack s; ctx::stack_context allocate() { ++live; return s.allocate(); } void deallocate( ctx::stack_context & c) { --live; s.deallocate( c); } };
int main() {
    {
        ctx::fiber f{ std::allocator_arg, A(), [](ctx::fiber && m) { return std::move( m); } };
        f = std::move( f).resume();
    }
    CHECK( live == 0);
    return 0;
}
"""),
 dict(id="C08-swallow", property="C08", needs="an exception derived from std::exception leaves the context function",
      breaks="an exception escaping a context function is swallowed instead of terminating the program",
      edits=[(INC + "fiber_fcontext.hpp", "        // start executing\n        t.fctx = rec->run( t.fctx);\n    } catch ( forced_unwind const& ex) {\n        t = { ex.fctx, nullptr };\n    }\n",
              "        // start executing\n        t.fctx = rec->run( t.fctx);\n    } catch ( forced_unwind const& ex) {\n        t.fctx = ex.fctx;\n    } catch ( std::exception const&) {\n        t.data = nullptr;\n    }\n")],
      cpp=PRE + r"""
#include <exception>
static void bye() { std::_Exit( 0); }
int main() {
    std::set_terminate( bye);
    ctx::fiber keep;
    ctx::fiber f{ [&keep](ctx::fiber && m) -> ctx::fiber { keep = std::move( m); throw std::runtime_error( "x"); } };
    f = std::move( f).resume();
    std::fprintf( stderr, "swallowed\\n");
    std::_Exit( 1);
}
"""),
 dict(id="C09-map-failed", property="C09", needs="BOOST_CONTEXT_USE_MAP_STACK and mmap() failing",
      breaks="allocate() hands out the address range below MAP_FAILED instead of throwing bad_alloc",
      edits=[(INC + "fixedsize_stack.hpp", "        if ( vp == MAP_FAILED) {\n", "        if ( ! vp) {\n")], flags="-DBOOST_CONTEXT_USE_MAP_STACK",
      cpp=PRE + r"""
int main() {
    ctx::fixedsize_stack a( (std::size_t) 1 << 62);
    try { a.allocate(); } catch ( std::bad_alloc const&) { return 0; }
    return 1;
}
"""),
 dict(id="C10-guard-readable", property="C10", needs="a read (not a write) past the end of a protected stack",
      breaks="the guard page is readable: reading past the end of the stack goes unnoticed",
      edits=[(INC + "posix/protected_fixedsize_stack.hpp", "traits_type::page_size(), PROT_NONE) );\n", "traits_type::page_size(), PROT_READ) );\n")],
      cpp=PRE + r"""
#include <boost/context/protected_fixedsize_stack.hpp>
#include <sys/wait.h>
#include <unistd.h>
int main() {
    ctx::protected_fixedsize_stack a( 20000);
    ctx::stack_context c = a.allocate();
    pid_t p = fork();
    if ( 0 == p) {
        volatile char * q = static_cast< char * >( c.sp) - c.size;
        for ( int i = 0; i < 4096; i += 512) (void) q[i];
        _exit( 7);
    }
    int st = 0;
    waitpid( p, & st, 0);
    CHECK( WIFSIGNALED( st));
    a.deallocate( c);
    return 0;
}
"""),
 dict(id="C11-prealloc-record-at-top", property="C11", needs="preallocated with user data reserved above preallocated::sp",
      breaks="the control record is written over the space the user reserved at the top of the stack",
      edits=[(INC + "fiber_fcontext.hpp", "            ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( Record) ) )\n",
              "            ( reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( sizeof( Record) ) )\n")],
      cpp=PRE + r"""
int main() {
    ctx::fixedsize_stack a;
    ctx::stack_context c = a.allocate();
    const std::size_t n = 1024;
    char * sp = static_cast< char * >( c.sp) - n;
    std::memset( sp, 0x42, n);
    ctx::fiber f{ std::allocator_arg, ctx::preallocated( sp, c.size - n, c), a, [](ctx::fiber && m) { m = std::move( m).resume(); return std::move( m); } };
    f = std::move( f).resume();
    for ( std::size_t i = 0; i < n; ++i) CHECK( sp[i] == 0x42);
    return 0;
}
"""),
 dict(id="C12-plain-count", property="C12", needs="copies of one pooled allocator made and dropped by several threads at once",
      breaks="the pool's reference count is not atomic: concurrent copies free the pool early or never",
      edits=[(INC + "pooled_fixedsize_stack.hpp", "        std::atomic< std::size_t >                                  use_count_;\n", "        std::size_t                                                 use_count_;\n")], flags="-O0",
      cpp=PRE + r"""
#include <boost/context/pooled_fixedsize_stack.hpp>
#include <atomic>
#include <vector>
static std::atomic< long > live;
void * operator new( std::size_t n) { live++; void * p = std::malloc( n); if ( ! p) throw std::bad_alloc(); return p; }
void operator delete( void * p) noexcept { if ( p) { live--; } }
void operator delete( void * p, std::size_t) noexcept { if ( p) { live--; } }
int main() {
    for ( int round = 0; round < 5; ++round) {
        long before = live;
        {
            ctx::pooled_fixedsize_stack p( 16384);
            std::atomic< int > go( 0);
            std::thread t[4];
            for ( auto & x : t) x = std::thread( [&] { ++go; while ( go < 4) ; for ( int i = 0; i < 300000; ++i) { ctx::pooled_fixedsize_stack q( p); } });
            for ( auto & x : t) x.join();
        }
        CHECK( live == before);
    }
    return 0;
}
"""),
 dict(id="C13-pooled-null", property="C13", needs="the pool cannot get memory for another stack",
      breaks="a pooled stack that could not be allocated is used: the creation does not report bad_alloc",
      edits=[(INC + "pooled_fixedsize_stack.hpp", "            if ( ! vp) {\n                throw std::bad_alloc();\n            }\n            stack_context sctx;\n            sctx.size = stack_size_;\n",
              "            stack_context sctx;\n            sctx.size = stack_size_;\n            if ( ! vp && 0 == stack_size_) {\n                throw std::bad_alloc();\n            }\n")],
      cpp=PRE + r"""
#include <boost/context/pooled_fixedsize_stack.hpp>
int main() {
    ctx::pooled_fixedsize_stack a( (std::size_t) 1 << 60, 1);
    try { a.allocate(); } catch ( std::bad_alloc const&) { return 0; }
    return 1;
}
"""),
 dict(id="C14-current-global", property="C14", needs="ucontext: a second thread uses fibers while a fiber runs on the first one",
      breaks="the threads share the notion of the running context: after the other thread ended, a switch takes the wrong context for the one that suspends",
      edits=[("src/fiber.cpp", "thread_local fiber_activation_record * fib_current_rec;\n", "fiber_activation_record * fib_current_rec;\n")], impl="uc",
      cpp=PRE + r"""
static int gone = 0;
struct D { ~D() { ++gone; } };
int main() {
    int n = 0;
    auto use = [&n] { ctx::fiber f{ [&n](ctx::fiber && m) { ++n; return std::move( m); } }; f = std::move( f).resume(); };
    {
        ctx::fiber f{ [&](ctx::fiber && m) {
            D d;
            std::thread( use).join();
            for (;;) m = std::move( m).resume();
            return std::move( m);
        } };
        f = std::move( f).resume();
        CHECK( f);
    }
    CHECK( n == 1);
    CHECK( gone == 1);
    return 0;
}
"""),
 dict(id="C14-cached-current", property="C14", needs="ucontext: a fiber suspended on one thread is resumed on another",
      breaks="after the switch the record of the thread that suspended the fiber is read instead of the current thread's",
      edits=[(INC + "fiber_ucontext.hpp", "    fiber_activation_record * resume() {\n\t\tfrom = current();\n        // store `this` in static, thread local pointer\n        // `this` will become the active (running) context\n        current() = this;\n",
              "    fiber_activation_record * resume() {\n        fiber_activation_record *& cur = current();\n\t\tfrom = cur;\n        // store `this` in static, thread local pointer\n        // `this` will become the active (running) context\n        cur = this;\n"),
             (INC + "fiber_ucontext.hpp", "        // context switch from parent context to `this`-context\n        ::swapcontext( & from->uctx, & uctx);\n#if defined(BOOST_USE_ASAN)\n        __sanitizer_finish_switch_fiber( current()->fake_stack,\n                                         (const void **) & current()->from->stack_bottom,\n                                         & current()->from->stack_size);\n#endif\n#if defined(BOOST_NO_CXX14_STD_EXCHANGE)\n        return exchange( current()->from, nullptr);\n#else\n        return std::exchange( current()->from, nullptr);\n#endif\n    }\n\n    template< typename Ctx, typename Fn >",
              "        // context switch from parent context to `this`-context\n        ::swapcontext( & from->uctx, & uctx);\n#if defined(BOOST_USE_ASAN)\n        __sanitizer_finish_switch_fiber( current()->fake_stack,\n                                         (const void **) & current()->from->stack_bottom,\n                                         & current()->from->stack_size);\n#endif\n#if defined(BOOST_NO_CXX14_STD_EXCHANGE)\n        return exchange( cur->from, nullptr);\n#else\n        return std::exchange( cur->from, nullptr);\n#endif\n    }\n\n    template< typename Ctx, typename Fn >")], impl="uc",
      cpp=PRE + r"""
int main() {
    int n = 0;
    ctx::fiber f{ [&n](ctx::fiber && m) { m = std::move( m).resume(); CHECK( (bool) m); n = 1; return std::move( m); } };
    f = std::move( f).resume();
    std::thread( [&f] { f = std::move( f).resume(); }).join();
    CHECK( n == 1);
    return 0;
}
"""),
 dict(id="C15-asan-swapped", property="C15", needs="BOOST_USE_ASAN and a stack that is not the default one",
      breaks="AddressSanitizer is told the wrong extent of a preallocated stack",
      edits=[(INC + "fiber_ucontext.hpp", "        __sanitizer_finish_switch_fiber( fake_stack,\n                                         (const void **) & from->stack_bottom,\n                                         & from->stack_size);\n",
              "        __sanitizer_finish_switch_fiber( from->fake_stack,\n                                         (const void **) & from->stack_bottom,\n                                         & from->stack_size);\n")], impl="uc", flags="-DBOOST_USE_ASAN",
      cpp=PRE.replace("#include <boost/context/continuation.hpp>\n", "") + r"""
static int nonnull;
static char fake[8];
extern "C" void __sanitizer_start_switch_fiber( void ** save, const void *, size_t) { if ( save) *save = fake; }
extern "C" void __sanitizer_finish_switch_fiber( void * f, const void ** b, size_t * n) { if ( f) ++nonnull; if ( b) *b = nullptr; if ( n) *n = 0; }
int main() {
    bool first = false;
    ctx::fiber f{ [&](ctx::fiber && m) { first = 0 == nonnull; return std::move( m); } };
    f = std::move( f).resume();
    CHECK( first);
    return 0;
}
"""),
 dict(id="C16-max-32bit", property="C16", needs="a hard stack limit of 4 GiB or more",
      breaks="maximum_size() loses the upper half of the limit",
      edits=[("src/posix/stack_traits.cpp", "    return static_cast< std::size_t >( stacksize_limit() );\n", "    return static_cast< unsigned >( stacksize_limit() );\n")],
      cpp=PRE + r"""
#include <boost/context/stack_traits.hpp>
#include <sys/resource.h>
extern "C" int getrlimit( __rlimit_resource_t, struct rlimit * r) noexcept { r->rlim_cur = 8u << 20; r->rlim_max = (rlim_t) 5 << 30; return 0; }
int main() {
    CHECK( ! ctx::stack_traits::is_unbounded());
    CHECK( ctx::stack_traits::maximum_size() == (std::size_t) 5 << 30);
    return 0;
}
"""),
 dict(id="C17-invoke-lvalue-fn", property="C17", needs="C++11/14 build and a function object whose && call operator differs from its & one",
      breaks="detail::invoke always calls the function object as an lvalue",
      edits=[(INC + "detail/invoke.hpp", "    return std::forward< Fn >( fn)( std::forward< Args >( args) ... );\n", "    return fn( std::forward< Args >( args) ... );\n")], std="c++11",
      cpp=PRE + r"""
#include <boost/context/detail/invoke.hpp>
struct F { int operator()() & { return 1; } int operator()() && { return 2; } int operator()() const & { return 3; } };
int main() { F f; const F g{}; CHECK( ctx::detail::invoke( f) == 1); CHECK( ctx::detail::invoke( F()) == 2); CHECK( ctx::detail::invoke( g) == 3); return 0; }
"""),
 dict(id="C18-resume-with-allocates", property="C18", needs="a callable with more captures than std::function stores in place",
      breaks="resume_with() allocates memory",
      edits=[(INC + "fiber_fcontext.hpp", "        auto p = std::forward< Fn >( fn);\n", "        std::function< fiber( fiber &&) > p = std::forward< Fn >( fn);\n")],
      flags="",
      cpp=PRE + r"""
static long n;
void * operator new( std::size_t s) { ++n; void * p = std::malloc( s); if ( ! p) throw std::bad_alloc(); return p; }
void operator delete( void * p) noexcept { std::free( p); }
void operator delete( void * p, std::size_t) noexcept { std::free( p); }
int main() {
    ctx::fiber f{ [](ctx::fiber && m) { m = std::move( m).resume(); return std::move( m); } };
    f = std::move( f).resume();
    struct { long v[16]; } big{};
    n = 0;
    f = std::move( f).resume_with( [big](ctx::fiber && m) { return std::move( m); });
    CHECK( n == 0);
    return 0;
}
"""),
 dict(id="C19-note-gnu-stack", property="C19", needs="linking with the ontop object: the linker then asks for an executable stack",
      breaks="ontop_fcontext's object file does not declare a non-executable stack",
      edits=[("src/asm/ontop_x86_64_sysv_elf_gas.S", "/* Mark that we don't need executable stack.  */\n.section .note.GNU-stack,\"\",%progbits\n", "/* end of file */\n")],
      script='for n in make jump ontop; do\n  gcc -c "$A/${n}_x86_64_sysv_elf_gas.S" -o "$tmp/$n.o" || exit 2\n  readelf -SW "$tmp/$n.o" | grep -q "[.]note[.]GNU-stack" || { echo "$n: executable stack"; exit 1; }\ndone\nexit 0\n'),
 dict(id="C20-less-equal", property="C20", needs="comparing a handle with itself, or two empty handles",
      breaks="operator< is not a strict ordering: containers keyed by handles misbehave",
      edits=[(INC + "continuation_fcontext.hpp", "        return fctx_ < other.fctx_;\n", "        return fctx_ <= other.fctx_;\n")],
      cpp=PRE + r"""
int main() { ctx::continuation a, b; CHECK( ! ( a < b)); CHECK( ! ( b < a)); return 0; }
"""),
 dict(id="C21-lvalue-callable-moved", property="C21", needs="a context made from an lvalue callable that is used again afterwards",
      breaks="the caller's function object is moved from",
      edits=[(INC + "continuation_fcontext.hpp", "        fn_( std::forward< Fn >( fn) ) {\n", "        fn_( std::move( fn) ) {\n")],
      cpp=PRE + r"""
int main() {
    auto sp = std::make_shared< int >( 3);
    int n = 0;
    auto fn = [sp,&n](ctx::continuation && m) { n += *sp; return std::move( m); };
    ctx::callcc( fn);
    CHECK( sp.use_count() == 2);
    ctx::callcc( fn);
    CHECK( n == 6);
    return 0;
}
"""),
 dict(id="C15-tsan-resume-with", property="C15", needs="BOOST_USE_TSAN and resume_with()",
      breaks="ThreadSanitizer is not told about switches made with resume_with()",
      edits=[(INC + "fiber_ucontext.hpp", "        __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);\n#endif\n#if defined (BOOST_USE_TSAN)\n        __tsan_switch_to_fiber(tsan_fiber, 0);\n#endif\n        // context switch",
              "        __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);\n#endif\n        // context switch")], impl="uc", flags="-DBOOST_USE_TSAN",
      cpp=PRE + r"""
static char fib[8]; static int nf; static void * cur = fib;
extern "C" void * __tsan_get_current_fiber( void) { return cur; }
extern "C" void * __tsan_create_fiber( unsigned) { return fib + ++nf; }
extern "C" void __tsan_destroy_fiber( void *) {}
extern "C" void __tsan_switch_to_fiber( void * f, unsigned) { cur = f; }
extern "C" void __tsan_set_fiber_name( void *, const char *) {}
int main() {
    void * seen = nullptr;
    ctx::fiber f{ [&](ctx::fiber && m) { m = std::move( m).resume(); seen = cur; return std::move( m); } };
    f = std::move( f).resume();
    f = std::move( f).resume_with( [](ctx::fiber && m) { return std::move( m); });
    CHECK( seen == fib + 1);
    return 0;
}
"""),
 dict(id="C06-destroy-salloc-ref", property="C06", needs="a stack allocator with state of its own (here: one that owns memory it touches on deallocate)",
      breaks="the stack is released through the allocator inside the record after the record has been destroyed",
      edits=[(INC + "fiber_fcontext.hpp", "        typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);\n        stack_context sctx = p->sctx_;\n",
              "        typename std::decay< StackAlloc >::type & salloc = p->salloc_;\n        stack_context sctx = p->sctx_;\n")],
      cpp=PRE + r"""
struct A {
    std::shared_ptr< int > live{ std::make_shared< int >( 0) };
    ctx::fixedsize_stack s;
    ~A() { std::memset( (void *) & s, 0xff, sizeof( s)); }
    A() = default; A( A const&) = default; A( A &&) = default;
    ctx::stack_context allocate() { ++*live; return s.allocate(); }
    void deallocate( ctx::stack_context & c) { CHECK( live != nullptr); CHECK( live.use_count() > 1); --*live; s.deallocate( c); }
};
int main() {
    A a;
    {
        ctx::fiber f{ std::allocator_arg, a, [](ctx::fiber && m) { m = std::move( m).resume(); return std::move( m); } };
        f = std::move( f).resume();
    }
    CHECK( *a.live == 0);
    return 0;
}
"""),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]
