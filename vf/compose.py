"""C23: documented headers stand alone, compose in any order, define nothing twice; the library defines what they leave undefined, once.
Decided by the type checkers of both compilers on generated translation units and by the symbol tables of unlinked objects."""
import itertools, os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from vf.report import REPO, HERE, Broken
from vf import irrun

H = ["fiber", "continuation", "fixedsize_stack", "protected_fixedsize_stack", "pooled_fixedsize_stack", "segmented_stack", "preallocated", "stack_context", "stack_traits", "flags"]
WINH = ["fiber", "continuation", "fixedsize_stack", "windows/protected_fixedsize_stack", "pooled_fixedsize_stack", "preallocated", "stack_context", "stack_traits"]
NM = "/usr/lib/llvm-18/bin/llvm-nm"
VG = ["-DBOOST_USE_VALGRIND", "-I" + os.path.join(HERE, "drivers", "vg")]
# name, flags, headers, library sources (None: not buildable here)
FC = ["src/fcontext.cpp", "src/posix/stack_traits.cpp"]
UC = ["src/fiber.cpp", "src/continuation.cpp", "src/posix/stack_traits.cpp"]
WF = ["src/fiber.cpp", "src/continuation.cpp", "src/windows/stack_traits.cpp"]
CONF = [
    ("fcontext", [], H, FC),
    ("fcontext/mapstack", ["-DBOOST_CONTEXT_USE_MAP_STACK"], H, FC),
    ("fcontext/valgrind", VG, H, FC),
    ("fcontext/shadow-stack", ["-fcf-protection=full", "-DSHADOW_STACK_SYSCALL=1"], H, FC),
    ("ucontext", ["-DBOOST_USE_UCONTEXT"], H, UC),
    ("ucontext+segmented", ["-DBOOST_USE_UCONTEXT", "-DBOOST_USE_SEGMENTED_STACKS"], H, UC),
    ("ucontext+asan", ["-DBOOST_USE_UCONTEXT", "-DBOOST_USE_ASAN"], H, UC),
    ("ucontext+tsan", ["-DBOOST_USE_UCONTEXT", "-DBOOST_USE_TSAN"], H, UC),
    ("winfib", ["-DBOOST_USE_WINFIB", "-I" + os.path.join(HERE, "winstub")], WINH, WF),
]
STDS = ("c++11", "c++14", "c++17", "c++20")


def inc(hs):
    return "".join("#include <boost/context/%s.hpp>\n" % h for h in hs)


def syntax(job):
    rule, where, cxx, std, flags, text = job
    rc, o = irrun.sh(["sh", "-c", 'printf "%s" "$0" | "$@" -', text, cxx, "-x", "c++", "-std=" + std, "-w", "-fsyntax-only", "-I", os.path.join(REPO, "include")] + flags)
    return rule, where, rc == 0, "\n".join([l for l in o.splitlines() if "error" in l][:4])


def demangle(names):
    rc, o = irrun.sh(["c++filt"], input="\n".join(names) + "\n")
    return dict(zip(names, o.splitlines()))


def symbols(obj):
    rc, o = irrun.sh([NM, obj])
    if rc:
        raise Broken("llvm-nm: " + o[:500])
    d, u = [], []
    for l in o.splitlines():
        m = re.match(r"[0-9a-f ]* ([A-Za-z]) (\S+)$", l)
        if not m:
            continue
        k, n = m.groups()
        if k == "U":
            u.append(n)
        elif k in "TDBRGSCA":
            d.append(n)
    return d, u


def obj(job):
    src, out, std, flags = job
    rc, o = irrun.sh(["clang++", "-std=" + std, "-w", "-O0", "-fPIC", "-c", "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "drivers")] + flags + [src, "-o", out])
    return rc, o


def run(chk, tier):
    jobs = []
    stds = STDS
    for name, flags, hs, src in CONF:
        for std in stds:
            for cxx in ("clang++", "g++"):
                if cxx == "g++" and tier == "quick" and std in ("c++14", "c++20"):
                    continue
                base = "%s %s %s" % (name, std, cxx)
                basic = name in ("fcontext", "ucontext", "winfib")
                if basic or tier != "quick":
                    for h in hs:
                        jobs.append(("C23: a documented header can be the only one a program includes", "<boost/context/%s.hpp> %s" % (h, base), cxx, std, flags, inc([h])))
                    for a, b in itertools.permutations(hs, 2):
                        if tier == "quick" and not (std == "c++17" and cxx == "clang++" and {a, b} & {"fiber", "continuation"} or a in ("fiber", "continuation") and b in ("fiber", "continuation")):
                            continue
                        jobs.append(("C23: any two documented headers compile together in either order", "%s, %s %s" % (a, b, base), cxx, std, flags, inc([a, b])))
                jobs.append(("C23: all documented headers compile together", "in order, %s" % base, cxx, std, flags, inc(hs)))
                jobs.append(("C23: all documented headers compile together", "in reverse order, twice, %s" % base, cxx, std, flags, inc(hs[::-1] + hs)))
                jobs.append(("C23: all documented headers compile together", "with assertions off, %s" % base, cxx, std, flags + ["-DNDEBUG"], inc(hs)))
    with ThreadPoolExecutor(8) as ex:
        for rule, where, ok, why in ex.map(syntax, jobs):
            chk.ob(rule, where, ok, why)
            chk.unit("translation units type-checked")
    tmp = tempfile.mkdtemp(prefix="vfcmp")
    try:
        link(chk, tier, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


USES = ["make", "obs", "alloc", "life1"]


def link(chk, tier, tmp):
    jobs, plan = [], []
    for ci, (name, flags, hs, srcs) in enumerate(CONF):
        for std in ("c++11", "c++17") if tier == "quick" else STDS:
            d = os.path.join(tmp, "%d_%s" % (ci, std))
            os.mkdir(d)
            tu = os.path.join(d, "all.cpp")
            open(tu, "w").write(inc(hs))
            uses = []
            if name not in ("winfib",):
                for dr in USES:
                    kinds = ([],) if dr == "alloc" else ([], ["-DVF_CONT"])
                    for k in kinds:
                        uses.append((os.path.join(HERE, "drivers", dr + ".cpp"), os.path.join(d, "use_%s%d.o" % (dr, len(k))), k))
            libs = [(os.path.join(REPO, s), os.path.join(d, "lib_" + s.replace("/", "_") + ".o")) for s in srcs]
            i0 = len(jobs)
            jobs.append((tu, os.path.join(d, "all.o"), std, flags))
            jobs += [(a, b, std, flags) for a, b in libs]
            jobs += [(a, b, std, flags + k) for a, b, k in uses]
            plan.append((name, std, i0, len(libs), len(uses)))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(obj, jobs))
    for name, std, i0, nl, nu in plan:
        where = "%s %s" % (name, std)
        rc, o = res[i0]
        if not chk.ob("C23: all documented headers compile together", "for code generation, " + where, rc == 0, o[:600]):
            continue
        d, u = symbols(jobs[i0][1])
        dm = demangle(d)
        chk.ob("C23: the headers define nothing that a second translation unit would define again", where, not d, "defined with external linkage: " + ", ".join(dm.values()))
        defs, need = {}, {}
        ok = True
        for k in range(i0 + 1, i0 + 1 + nl):
            s = os.path.relpath(jobs[k][0], REPO)
            ok &= chk.ob("C23: the library's sources compile in every configuration", "%s %s" % (s, where), res[k][0] == 0, res[k][1][:600])
            if res[k][0] == 0:
                for n in symbols(jobs[k][1])[0]:
                    defs.setdefault(n, []).append(s)
        if not ok:
            continue
        for k in list(range(i0 + 1 + nl, i0 + 1 + nl + nu)) + list(range(i0 + 1, i0 + 1 + nl)):
            if res[k][0]:
                continue          # the driver's own use is judged by its properties
            for n in symbols(jobs[k][1])[1]:
                need.setdefault(n, os.path.basename(jobs[k][0]))
        dm = demangle(sorted(set(need) | set(defs)))
        multi = ["%s (%s)" % (dm[n], ", ".join(w)) for n, w in sorted(defs.items()) if len(w) > 1]
        chk.ob("C23: the library's sources define nothing twice", where, not multi, "; ".join(multi))
        mine = [n for n in sorted(need) if "boost::context::" in dm[n].split("(")[0] and not dm[n].startswith(("vtable", "typeinfo")) or "boost::context" in dm[n] and dm[n].startswith(("vtable", "typeinfo", "non-virtual"))]
        lost = ["%s (used by %s)" % (dm[n], need[n]) for n in mine if n not in defs]
        chk.unit("symbols the library must define", len(mine))
        chk.ob("C23: what programs use from the headers is defined by the library built with the same options", where, not lost, "; ".join(lost))
        if nu and sum(1 for k in range(i0 + 1 + nl, i0 + 1 + nl + nu) if res[k][0] == 0) == 0:
            raise Broken("C23: no client compiles in %s" % where)
