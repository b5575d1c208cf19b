"""which drivers decide which property, in which configurations"""
import os
from vf.report import HERE
from vf.ircheck import impl_units, plain_unit, ND, TRAITS, STDS_T, WFLAGS

PL = "-DBOOST_CONTEXT_USE_MAP_STACK"


def wf(driver, entries, tier, **kw):
    """the Windows backend, with models of the Windows API"""
    return impl_units(driver, entries, impls=("wf",), stds=("c++17",) if tier == "quick" else STDS_T, **kw)


def cet(driver, entries, tier, quick=True, **kw):
    """the documented shadow-stack configuration of the fcontext backend"""
    if tier == "quick" and not quick:
        return []
    return impl_units(driver, entries, impls=("cet",), stds=("c++17",) if tier == "quick" else STDS_T, **kw)


def two_ints(driver, entries):
    """the ucontext branch (macOS) which hands the record over in two ints"""
    return impl_units(driver, entries, impls=("uc",), stds=("c++17",), flags=("-Dmacintosh",), tag="/two-ints")


def life(tier, entries=("drv_life1",)):
    stds = ("c++11", "c++17") if tier == "quick" else STDS_T
    u = impl_units("life1", ["drv_life1"], stds=stds)
    if tier != "quick":
        u += impl_units("life1", ["drv_life1"], stds=("c++17",), flags=ND, tag="/ndebug")
    return u + two_ints("life1", ["drv_life1"]) + cet("life1", ["drv_life1"], tier, False) + wf("life1", ["drv_life1"], tier)


def life2(tier):
    u = impl_units("life2", ["drv_life2"], stds=("c++17",) if tier == "quick" else STDS_T)
    if tier != "quick":
        u += impl_units("life2", ["drv_life2"], stds=("c++17",), flags=ND, tag="/ndebug")
    # histories with three contexts
    u += impl_units("life2", ["drv_life2"], impls=("fc",) if tier == "quick" else ("fc", "uc"), stds=("c++17",), flags=("-DVF_N=3",), tag="/three")
    return u + cet("life2", ["drv_life2"], tier) + wf("life2", ["drv_life2"], tier)


UNW = ["drv_unwind_uses", "drv_owner"]


def unw(tier):
    u = impl_units("unw", UNW, stds=("c++11", "c++17") if tier == "quick" else STDS_T)
    if tier != "quick":
        u += impl_units("unw", UNW, stds=("c++17",), flags=ND, tag="/ndebug")
    return u + cet("unw", UNW, tier) + wf("unw", UNW, tier)


ONTOP = ["drv_ontop", "drv_ontop_kill", "drv_ontop_copy", "drv_ontop_back"]


def ontop(tier):
    u = impl_units("ontop", ONTOP, stds=("c++11", "c++14", "c++17") if tier == "quick" else STDS_T)
    if tier != "quick":
        u += impl_units("ontop", ONTOP, stds=("c++17",), flags=ND, tag="/ndebug")
    return u + cet("ontop", ONTOP, tier, False) + wf("ontop", ONTOP, tier)


def assign(tier):
    u = impl_units("assign", ["drv_assign"], stds=("c++11", "c++17") if tier == "quick" else STDS_T)
    if tier != "quick":
        u += impl_units("assign", ["drv_assign"], stds=("c++17",), flags=ND, tag="/ndebug")
    return u + cet("assign", ["drv_assign"], tier, False) + wf("assign", ["drv_assign"], tier)


def make(tier):
    u = impl_units("make", ["drv_make", ("drv_make_pass", {}, "c")], stds=("c++11", "c++17") if tier == "quick" else STDS_T)
    if tier != "quick":
        u += impl_units("make", ["drv_make", ("drv_make_pass", {}, "c")], stds=("c++17",), flags=ND, tag="/ndebug")
    return u + cet("make", ["drv_make", ("drv_make_pass", {}, "c")], tier, False) + wf("make", ["drv_make", ("drv_make_pass", {}, "c")], tier)


EXC = ["drv_exc", "drv_exc_plain", ("drv_exc_inject", {}, "f")]


def exc_ok(tier):
    return impl_units("exc", EXC, stds=("c++17",) if tier == "quick" else STDS_T) + cet("exc", EXC, tier) + wf("exc", EXC, tier)


def exc(tier):
    u = impl_units("exc", EXC, stds=("c++11", "c++17") if tier == "quick" else STDS_T)
    u += impl_units("exc", EXC, stds=("c++17",), flags=ND + ("-DVF_DROP",), tag="/dropped-handle")
    return u + wf("exc", EXC, tier)


def place(tier):
    return impl_units("place", ["drv_place"], stds=("c++11", "c++17") if tier == "quick" else STDS_T) + two_ints("place", ["drv_place"]) + cet("place", ["drv_place"], tier) + wf("place", ["drv_place"], tier)


PSTUB = ("-I" + os.path.join(HERE, "drivers", "poolstub"),)
FAILS = {"fail_malloc": 1, "fail_mmap": 1, "page": 4096}


def alloc(tier):
    stds = ("c++17",) if tier == "quick" else STDS_T
    u = []
    for std in stds:
        for wrap in (0, 1):
            fl = ND + (("-DVF_WRAP",) if wrap else ())
            o = dict(FAILS, fail_mprotect=1, **({"wrap": 1} if wrap else {}))
            nm = "/wrap" if wrap else ""
            u += [plain_unit("alloc", ["drv_fixed", ("drv_protected", {}), ("drv_protected", {"page": 65536})], std, fl, opts=o, tag=nm)]
            u += [plain_unit("alloc", ["drv_fixed", ("drv_protected", {})], std, fl + (PL,), opts=o, tag=nm + "/mapstack")]
        u += [plain_unit("alloc", ["drv_pooled", "drv_pooled_default", "drv_default"], std, opts=FAILS)]
        u += [plain_unit("alloc", ["drv_pooled", "drv_pooled_default", "drv_default"], std, ND + (PL,), opts=FAILS, tag="/mapstack")]
        for x, nm in ((ND, ""), (ND + (PL,), "/mapstack")):
            u += [plain_unit("alloc", ["drv_pooled_real"], std, x, opts=dict(FAILS, pool_real=1), tag="/boost.pool" + nm)]
        for x, nm in ((ND, ""), (ND + (PL,), "/mapstack")):
            for wrap in (0, 1):
                u += [plain_unit("alloc", ["drv_pooled"], std, x + PSTUB + (("-DVF_WRAP",) if wrap else ()), opts=dict(FAILS, pool_real=1, **({"wrap": 1} if wrap else {})), tag="/pool-blocks" + nm + ("/wrap" if wrap else ""))]
        u += [plain_unit("alloc", ["drv_segmented"], std, ND + ("-DBOOST_USE_SEGMENTED_STACKS", "-DBOOST_USE_UCONTEXT"), opts={}, tag="/segmented")]
        u += win_alloc(std, ({},))
    u += [plain_unit("alloc", ["drv_fixed", "drv_protected", "drv_pooled", "drv_default"], "c++17", (), opts=FAILS, tag="/debug")]
    return u


WTRAITS = "src/windows/stack_traits.cpp"


def win_alloc(std, pages):
    u = []
    for wrap in (0, 1):
        o = dict(FAILS, fail_mprotect=1, **({"wrap": 1} if wrap else {}))
        u += [plain_unit("alloc", [("drv_protected", p) for p in pages], std, ND + tuple(WFLAGS) + ("-DVF_WIN",) + (("-DVF_WRAP",) if wrap else ()), src=(WTRAITS,), opts=o, tag="/windows" + ("/wrap" if wrap else ""))]
    return u


def guard(tier):
    u = []
    for std in ("c++17",) if tier == "quick" else STDS_T:
        u += win_alloc(std, ({"page": 4096}, {"page": 65536}))
    for std in ("c++11", "c++17") if tier == "quick" else STDS_T:
        for wrap in (0, 1):
            fl = ND + (("-DVF_WRAP",) if wrap else ())
            for x in ((), (PL,)):
                o = dict(FAILS, fail_mprotect=1, **({"wrap": 1} if wrap else {}))
                u += [plain_unit("alloc", [("drv_protected", {"page": p}) for p in (4096, 16384, 65536)], std, fl + x, opts=o, tag=("/wrap" if wrap else "") + ("/mapstack" if x else ""))]
    return u


def pool(tier):
    u = []
    stds = ("c++11", "c++17") if tier == "quick" else STDS_T
    u += impl_units("pool", ["drv_pool"], stds=stds, opts={"refcnt": 1, "shared": 0})
    for std in stds:
        u += [plain_unit("pool", ["drv_pool_copy", "drv_pool_thread"], std, src=("src/fcontext.cpp", TRAITS), opts={"refcnt": 1, "shared": 0})]
    return u + wf("pool", ["drv_pool"], tier, opts={"refcnt": 1, "shared": 0})


FAIL_O = {"fail_malloc": 1, "fail_mmap": 1, "fail_mprotect": 1, "page": 4096}


def fail(tier):
    u = []
    stds = ("c++17",) if tier == "quick" else STDS_T
    u += impl_units("fail", ["drv_fail", "drv_fail_lib"], impls=("fc",), stds=stds, opts=FAIL_O)
    u += impl_units("fail", ["drv_fail", "drv_fail_lib"], impls=("uc",), stds=("c++11",) + stds if tier == "quick" else stds, opts=dict(FAIL_O, fail_getcontext=1))
    u += impl_units("fail", ["drv_fail_first"], impls=("uc",), kinds=("c",), stds=stds, opts=dict(FAIL_O, fail_getcontext=1), tag="/first-use")
    return u + cet("fail", ["drv_fail", "drv_fail_lib"], tier, opts=dict(FAIL_O, fail_shstk=1)) + wf("fail", ["drv_fail", "drv_fail_lib"], tier, opts=dict(FAIL_O, fail_createfiber=1))


THR = ["drv_thread", "drv_thread_kill"]
LAST = ["drv_thread_lasting"]


def thread(tier):
    u = impl_units("thread", THR, stds=("c++11", "c++17") if tier == "quick" else STDS_T, opts={"shared": 0})
    if tier != "quick":
        u += impl_units("thread", THR, stds=("c++17",), flags=ND, tag="/ndebug")
    u += impl_units("lasting", LAST, stds=("c++17",) if tier == "quick" else STDS_T, opts={"shared": 0}) + wf("lasting", LAST, tier, opts={"shared": 0})
    return u + cet("thread", THR, tier, False, opts={"shared": 0}) + wf("thread", THR, tier, opts={"shared": 0})


def eff(tier):
    return impl_units("eff", ["drv_eff", "drv_eff_default", "drv_eff_prealloc"], impls=("fc",), stds=("c++11", "c++17") if tier == "quick" else STDS_T)


def obs(tier):
    return impl_units("obs", ["drv_obs", "drv_obs_swap", "drv_obs_order"], stds=("c++11", "c++17") if tier == "quick" else STDS_T) + wf("obs", ["drv_obs", "drv_obs_swap", "drv_obs_order"], tier)


def traits(tier):
    u = [plain_unit("traits", ["drv_traits", "drv_traits_thread"], std, opts={"shared": 0}) for std in STDS_T]
    u += [plain_unit("traits", ["drv_traits_win"], std, ND + tuple(WFLAGS), src=(WTRAITS,), opts={"shared": 0}, tag="/windows") for std in STDS_T]
    return u + [plain_unit("traits", ["drv_traits", "drv_traits_thread"], "c++17", (), opts={"shared": 0}, tag="/debug")]


VG = ("-DBOOST_USE_VALGRIND", "-I" + os.path.join(HERE, "drivers", "vg"))
SAN_D = (("life1", ["drv_life1"]), ("life2", ["drv_life2"]), ("ontop", ["drv_ontop", "drv_ontop_kill"]), ("exc", ["drv_exc", "drv_exc_plain"]), ("unw", UNW), ("thread", ["drv_thread", "drv_thread_kill"]), ("lasting", ["drv_thread_lasting"]), ("place", ["drv_place"]))


def san(tier):
    u = []
    stds = ("c++17",) if tier == "quick" else STDS_T
    for d, e in SAN_D:
        u += impl_units(d, e, impls=("uc",), stds=stds, flags=ND + ("-DBOOST_USE_ASAN",), opts={"asan": 1}, tag="/asan")
        u += impl_units(d, e, impls=("uc",), kinds=("f",), stds=stds, flags=ND + ("-DBOOST_USE_TSAN",), opts={"tsan": 1}, tag="/tsan")
        if d != "place":
            u += impl_units(d, e, impls=("seg",), stds=stds, opts={"seg": 1}, tag="/seg")
    u += impl_units("life1", ["drv_life1"], impls=("uc",), stds=("c++11",), flags=ND + ("-DBOOST_USE_ASAN",), opts={"asan": 1}, tag="/asan")
    u += impl_units("life1", ["drv_life1"], impls=("uc",), stds=("c++11",), kinds=("f",), flags=ND + ("-DBOOST_USE_TSAN",), opts={"tsan": 1}, tag="/tsan")
    fo = dict(FAIL_O, fail_getcontext=1)
    u += impl_units("fail", ["drv_fail"], impls=("uc",), stds=stds, flags=ND + ("-DBOOST_USE_ASAN",), opts=dict(fo, asan=1), tag="/asan")
    u += impl_units("fail", ["drv_fail"], impls=("uc",), kinds=("f",), stds=stds, flags=ND + ("-DBOOST_USE_TSAN",), opts=dict(fo, tsan=1), tag="/tsan")
    for std in stds:
        for pl in ((), (PL,)):
            u.append(plain_unit("alloc", ["drv_fixed", "drv_protected", "drv_pooled", "drv_pooled_default", "drv_default"], std, ND + VG + pl, opts=dict(FAILS, fail_mprotect=1), tag="/valgrind" + ("/mapstack" if pl else "")))
    return sorted(u, key=lambda x: -COST.get(x.driver, 1))


COST = {"life2": 5, "ontop": 5, "thread": 4, "life1": 3}


def raw(tier):
    return [plain_unit("raw", ["drv_raw"], std, fl, src=("src/fcontext.cpp",), opts={"shared": 0, "may_return": 1}, tag=t) for std in STDS_T for fl, t in ((ND, ""), ((), "/debug"))]


def tail(tier):
    return [plain_unit("tail", ["drv_tail"], std, src=("src/asm/tail_ontop_ppc32_sysv.cpp",), opts={"shared": 0}) for std in STDS_T]


def fallb(tier):
    return [plain_unit("fallb", ["drv_invoke", "drv_invoke_member", "drv_apply", "drv_exchange", "drv_tuple"], std) for std in ("c++11", "c++14", "c++17")]
