"""Properties decided by the interprocedural ownership/typestate analysis (irflow) of client drivers linked with /repo's sources."""
import os, re, shutil, signal, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor
from vf.report import REPO, HERE, Broken
from vf import irrun

TRAITS = "src/posix/stack_traits.cpp"
FC = ["src/fcontext.cpp", TRAITS]
UC = ["src/fiber.cpp", "src/continuation.cpp", TRAITS]
WF = ["src/fiber.cpp", "src/continuation.cpp", "src/windows/stack_traits.cpp"]
WFLAGS = ["-DBOOST_USE_WINFIB", "-I" + os.path.join(HERE, "winstub")]
CETFLAGS = ["-fcf-protection=full", "-DSHADOW_STACK_SYSCALL=1"]
STDS_Q = ("c++11", "c++17")
STDS_T = ("c++11", "c++14", "c++17", "c++20")
ND = ("-DNDEBUG",)


class Unit:
    """one driver compiled in one configuration, and the entries analysed in it"""
    def __init__(self, driver, name, std, src, flags, runs):
        self.driver, self.name, self.std, self.src, self.flags, self.runs = driver, name, std, src, list(flags), runs


def impl_units(driver, entries, impls=("fc", "uc"), kinds=("f", "c"), stds=("c++17",), flags=None, opts=None, tag=""):
    """entries: names, or (name, opts), or (name, opts, kinds); without flags C++17 is built with assertions, the other modes without"""
    out = []
    for std in stds:
        for i in impls:
            for k in kinds:
                runs = []
                for e in entries:
                    e = (e,) if type(e) is str else tuple(e)
                    if len(e) > 2 and k not in e[2]:
                        continue
                    o = dict(opts or {})
                    o.update(e[1] if len(e) > 1 else {})
                    runs.append((e[0], o))
                if not runs:
                    continue
                fl = list((() if std == "c++17" else ND) if flags is None else flags) + (["-DVF_CONT"] if k == "c" else []) + (["-DBOOST_USE_UCONTEXT"] if i in ("uc", "seg") else [])
                if i == "wf":
                    fl += WFLAGS
                if i == "cet":
                    fl += CETFLAGS
                    runs = [(a, dict(o, cet=1)) for a, o in runs]
                if i == "seg":
                    fl += ["-DBOOST_USE_SEGMENTED_STACKS"]
                nm = "%s/%s/%s/%s%s" % (driver, {"fc": "fcontext", "uc": "ucontext", "seg": "ucontext+segmented", "wf": "winfiber", "cet": "fcontext+shadow-stack"}[i], "continuation" if k == "c" else "fiber", std, tag)
                out.append(Unit(driver, nm, std, FC if i in ("fc", "cet") else WF if i == "wf" else UC, fl, runs))
    return out


def plain_unit(driver, entries, std="c++17", flags=ND, src=(TRAITS,), opts=None, tag=""):
    runs = []
    for e in entries:
        e = (e,) if type(e) is str else tuple(e)
        o = dict(opts or {})
        o.update(e[1] if len(e) > 1 else {})
        runs.append((e[0], o))
    return Unit(driver, "%s/%s%s" % (driver, std, tag), std, list(src), flags, runs)


def _one(u):
    tmp = tempfile.mkdtemp(prefix="vfir")
    out = {"unit": u.name, "runs": [], "error": None, "compile": None}
    try:
        t0 = time.time()
        try:
            bc = irrun.build(u.driver, u.std, u.flags, tmp, u.src)
        except irrun.CompileFailed as e:
            out["compile"] = str(e)
            return out
        out["compile_s"] = round(time.time() - t0, 2)
        for entry, opts in u.runs:
            t1 = time.time()
            e = irrun.analyse(bc, entry, opts)
            vs = []
            for k in e.order:
                v = e.violations[k]
                vs.append({"cat": v["cat"], "msg": v["msg"], "site": v["site"], "n": v["n"], "trail": [str(x) for x in v["trail"][-14:]],
                           "stack": ["%s:%s in %s" % (os.path.basename(s[1] or "?"), s[2], s[0]) for s in v["stack"][:8]]})
            st = dict(e.stats)
            out["runs"].append({"entry": entry, "opts": opts, "violations": vs, "stats": st, "undecided": {str(k): str(v)[:300] for k, v in e.undecided.items()},
                                "functions": len(e.fn_seen), "wall": round(time.time() - t1, 2)})
    except BaseException as e:
        out["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1800:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def tags(msg):
    m = re.match(r"((?:C\d\d)(?:,C\d\d)*): ", msg)
    return m.group(1).split(",") if m else []


def header_compiles(u):
    """is it the driver's use that the tree rejects, or does the tree itself not build?"""
    tmp = tempfile.mkdtemp(prefix="vfir")
    try:
        with open(os.path.join(tmp, "h.cpp"), "w") as f:
            inc = [l for l in open(os.path.join(HERE, "drivers", u.driver + ".cpp")) if l.startswith("#include <boost/context")]
            inc = inc or ["#include <boost/context/fiber.hpp>\n#include <boost/context/continuation.hpp>\n"]
            f.write("".join(inc))
        try:
            irrun.compile_bc(os.path.join(tmp, "h.cpp"), os.path.join(tmp, "h.bc"), u.std, [x for x in u.flags if x != "-DVF_CONT"])
            for s in u.src:
                irrun.compile_bc(os.path.join(REPO, s), os.path.join(tmp, "s.bc"), u.std, u.flags)
            return True
        except irrun.CompileFailed:
            return False
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_units(chk, units, prop, generic=True, also=(), min_functions=1):
    """analyses every unit; a violated rule counts for the properties in its tag, anything else (leak, use after free, ...)
    for the property being checked when `generic`"""
    with ProcessPoolExecutor(8) as ex:
        res = list(ex.map(_one, units))
    for u, r in zip(units, res):
        if r["error"]:
            raise Broken("%s: %s" % (r["unit"], r["error"]))
        if r["compile"]:
            if not header_compiles(u):
                raise Broken(r["compile"])
            chk.ob("a documented use of the library compiles", r["unit"], False, r["compile"])
            continue
        chk.unit("configurations analysed")
        for run in r["runs"]:
            st = run["stats"]
            where = "%s %s%s" % (r["unit"], run["entry"], " " + ",".join("%s=%s" % x for x in sorted(run["opts"].items())) if run["opts"] else "")
            chk.unit("entries analysed")
            chk.unit("abstract paths", st["paths"])
            chk.unit("states merged at loop heads", st.get("merged", 0))
            chk.unit("instructions interpreted", st["steps"])
            chk.unit("memory accesses checked", st.get("mem", 0))
            chk.unit("functions covered (sum over entries)", run["functions"])
            for k, v in run["undecided"].items():
                chk.undecided.append("%s: %s: %s" % (where, k, v))
            bad = {}
            for v in run["violations"]:
                t = tags(v["msg"])
                if t:
                    if not (set(t) & ({prop} | set(also))):
                        continue
                    bad[v["msg"]] = 1
                    rule = v["msg"]
                    for o in set(x for x in t if x != prop):
                        pass
                else:
                    if not generic:
                        continue
                    rule = "%s: %s" % (v["cat"], v["msg"])
                chk.ob(rule, where, False, "path: %s\n    stack: %s" % (" ; ".join(v["trail"]), " <- ".join(v["stack"])), v["site"])
            for rule, n in st["checks"].items():
                t = tags(rule)
                if t and not (set(t) & ({prop} | set(also))):
                    continue
                if rule not in bad:
                    chk.ob(rule, where, True)
                    chk.unit("rule instances reached on paths", n)
            if generic and not any(not tags(v["msg"]) for v in run["violations"]):
                chk.ob("ownership and typestate rules (no leak, no use after free/scope/destroy, no double release, one-shot contexts, no bounds violation) on every path", where, True)
            if run["functions"] < min_functions or st["paths"] < 1:
                raise Broken("%s: nothing analysed" % where)
