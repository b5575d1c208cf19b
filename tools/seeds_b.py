import importlib.util, os
sp = importlib.util.spec_from_file_location("seeds_a_", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_a.py"))
_a = importlib.util.module_from_spec(sp)
sp.loader.exec_module(_a)
PRE, INC = _a.PRE, _a.INC
RAW = PRE + "#include <cfenv>\n#include <boost/context/detail/fcontext.hpp>\nnamespace dt = boost::context::detail;\n"
SEEDS = [
 dict(id="C01-wrapper-rounding", property="C01", needs="a context that works in a rounding mode other than to-nearest and is resumed by a plain switch",
      breaks="the exported jump_fcontext sets the rounding mode back to nearest after every switch: the resumed context computes differently",
      edits=[("src/fcontext.cpp", "#include <boost/context/detail/fcontext.hpp>\n", "#include <cfenv>\n#include <boost/context/detail/fcontext.hpp>\n"),
             ("src/fcontext.cpp", "    return ::jump_fcontext(to, vp);\n", "    transfer_t t = ::jump_fcontext(to, vp);\n    // the other context might have changed the rounding mode\n    std::fesetround(FE_TONEAREST);\n    return t;\n")],
      cpp=RAW + r"""
int main() {
    int seen = -1;
    ctx::fiber f{ [&](ctx::fiber && m) {
        std::fesetround( FE_UPWARD);
        m = std::move( m).resume();
        seen = std::fegetround();
        return std::move( m);
    } };
    f = std::move( f).resume();
    f = std::move( f).resume();
    CHECK( seen == FE_UPWARD);
    return 0;
}
"""),
 dict(id="C02-entry-default-fenv", property="C02", needs="a creator that works in a rounding mode other than to-nearest when it makes the context",
      breaks="the function of a continuation starts with the default floating-point environment instead of its creator's",
      edits=[(INC + "continuation_fcontext.hpp", "#include <algorithm>\n", "#include <algorithm>\n#include <cfenv>\n"),
             (INC + "continuation_fcontext.hpp", "        // start executing\n", "        // start executing, in the default environment\n        std::fesetenv( FE_DFL_ENV);\n")],
      cpp=RAW + r"""
int main() {
    int seen = -1;
    std::fesetround( FE_DOWNWARD);
    ctx::continuation c = ctx::callcc( [&](ctx::continuation && m) {
        seen = std::fegetround();
        return std::move( m);
    });
    CHECK( seen == FE_DOWNWARD && std::fegetround() == FE_DOWNWARD);
    return 0;
}
"""),
 dict(id="C02-make-rounds-up", property="C02", needs="a stack pointer that is not a multiple of 16, handed to make_fcontext directly",
      breaks="make_fcontext rounds the stack pointer up: the new context writes above the memory it was given",
      edits=[("src/fcontext.cpp", "    return ::make_fcontext(sp, size, fn);\n", "    // the routines want a 16 byte aligned stack pointer\n    const __UINTPTR_TYPE__ top = ( reinterpret_cast< __UINTPTR_TYPE__ >( sp) + 15) & ~ static_cast< __UINTPTR_TYPE__ >( 15);\n    return ::make_fcontext( reinterpret_cast< void * >( top), size, fn);\n")],
      cpp=RAW + r"""
static void fn( dt::transfer_t t) {
    volatile char use[64];
    for ( int i = 0; i < 64; ++i) use[i] = 1;
    dt::jump_fcontext( t.fctx, nullptr);
}
int main() {
    alignas( 64) static char stack[65536 + 64];
    for ( int off = 0; off < 16; ++off) {
        std::memset( stack, 0x5a, sizeof( stack));
        char * top = stack + 65536 + off;
        auto c = dt::make_fcontext( top, 65536, fn);
        dt::jump_fcontext( c, nullptr);
        for ( char * p = top; p < stack + sizeof( stack); ++p) CHECK( *p == 0x5a);
    }
    return 0;
}
"""),
 dict(id="C03-null-drops-data", property="C03", needs="a function run on top of a suspended context that returns no context but a data pointer",
      breaks="the result of the function is not delivered: the suspended jump yields a null data pointer",
      edits=[("src/fcontext.cpp", "    return ::jump_fcontext(to, vp);\n", "    transfer_t t = ::jump_fcontext(to, vp);\n    if ( nullptr == t.fctx) {\n        // nobody to answer to\n        t.data = nullptr;\n    }\n    return t;\n")],
      cpp=RAW + r"""
static dt::fcontext_t keep;
static int x;
static dt::transfer_t ontop( dt::transfer_t t) { keep = t.fctx; return { nullptr, & x }; }
static void * got; static void * who;
static void fn( dt::transfer_t t) {
    t = dt::jump_fcontext( t.fctx, nullptr);
    got = t.data; who = t.fctx;
    dt::jump_fcontext( keep, nullptr);
}
int main() {
    static char stack[65536];
    auto t = dt::jump_fcontext( dt::make_fcontext( stack + sizeof( stack), sizeof( stack), fn), nullptr);
    dt::ontop_fcontext( t.fctx, nullptr, ontop);
    CHECK( got == & x && who == nullptr);
    return 0;
}
"""),
 dict(id="C23-swap-not-inline", property="C23", needs="a program with two translation units that include continuation.hpp",
      breaks="swap(continuation&, continuation&) is defined once per translation unit: the program does not link",
      edits=[(INC + "continuation_fcontext.hpp", "inline\nvoid swap( continuation & l, continuation & r) noexcept {", "void swap( continuation & l, continuation & r) noexcept {")],
      cpp=PRE + "int other();\nint main() { ctx::continuation a, b; swap( a, b); return other(); }\n",
      script=r"""cat > "$tmp/two.cpp" <<'X'
#include <boost/context/continuation.hpp>
int other() { boost::context::continuation a, b; swap( a, b); return 0; }
X
g++ -std=c++17 -w -I"$repo/include" "$here/demo.cpp" "$tmp/two.cpp" $FC -o "$tmp/demo" || exit 1
timeout 60 "$tmp/demo" || exit 1
exit 0
"""),
 dict(id="C23-guard-clash", property="C23", needs="a translation unit that includes fixedsize_stack.hpp (or fiber.hpp) before pooled_fixedsize_stack.hpp",
      breaks="pooled_fixedsize_stack.hpp uses fixedsize_stack.hpp's include guard and vanishes if it comes second",
      edits=[(INC + "pooled_fixedsize_stack.hpp", "#ifndef BOOST_CONTEXT_POOLED_pooled_fixedsize_H\n#define BOOST_CONTEXT_POOLED_pooled_fixedsize_H\n", "#ifndef BOOST_CONTEXT_FIXEDSIZE_H\n#define BOOST_CONTEXT_FIXEDSIZE_H\n")],
      cpp=PRE + r"""
#include <boost/context/pooled_fixedsize_stack.hpp>
int main() {
    int n = 0;
    ctx::fiber f{ std::allocator_arg, ctx::pooled_fixedsize_stack(), [&](ctx::fiber && m) { ++n; return std::move( m); } };
    f = std::move( f).resume();
    CHECK( n == 1 && ! f);
    return 0;
}
""",
      script=r"""g++ -std=c++17 -w -I"$repo/include" "$here/demo.cpp" $FC -o "$tmp/demo" || exit 1
timeout 60 "$tmp/demo" || exit 1
exit 0
"""),
]
