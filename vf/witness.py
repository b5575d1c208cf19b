"""type-level witnesses: translation units whose static assertions state what every program may or may not do with the library's types;
the compiler's type checker decides each of them for the current headers"""
import os, re
from concurrent.futures import ThreadPoolExecutor
from vf.report import REPO, HERE, Broken
from vf import irrun
from vf.ircheck import tags, REPO as _R

ARGS = ["clang++", "-fsyntax-only", "-w", "-ferror-limit=0", "-fmacro-backtrace-limit=1", "-ftemplate-backtrace-limit=3", "-fno-caret-diagnostics", "-fno-elide-type"]


def count(f, std, flags):
    """every static_assert the preprocessor leaves, with its rule"""
    rc, o = irrun.sh(["clang++", "-E", "-P", "-std=" + std, "-I", os.path.join(REPO, "include")] + flags + [f])
    if rc:
        return None
    i = o.rfind("struct voider")
    return re.findall(r'"(C\d\d(?:,C\d\d)*: [^"]*)"', o)


def one(job):
    f, std, flags = job
    path = os.path.join(HERE, "witness", f)
    rc, o = irrun.sh(ARGS + ["-std=" + std, "-I", os.path.join(REPO, "include")] + flags + [path])
    rules = count(path, std, flags)
    bad, other = [], []
    for l in o.splitlines():
        if ": error: " in l or ": fatal error: " in l:
            m = re.search(r"error: static assertion failed.*?(C\d\d(?:,C\d\d)*: .*)$", l)
            if m:
                bad.append((m.group(1), l.split(": error")[0]))
            else:
                other.append(l)
    return job, rules, bad, other, o


def headers_ok(f, std, flags):
    inc = "".join(l for l in open(os.path.join(HERE, "witness", f)) if l.startswith("#include"))
    if f == "handles.cpp":
        inc += "#include <boost/context/%s.hpp>\n" % ("continuation" if "-DVF_CONT" in flags else "fiber")
    rc, o = irrun.sh(["sh", "-c", 'printf "%s" "$0" | clang++ -x c++ -w -fsyntax-only "$@" -', inc, "-std=" + std, "-I", os.path.join(REPO, "include")] + flags)
    return rc == 0, o


def run_file(chk, f, jobs, prop):
    with ThreadPoolExecutor(8) as ex:
        for job, rules, bad, other, out in ex.map(one, [(f, s, fl) for s, fl in jobs]):
            _, std, flags = job
            where = "witness/%s %s %s" % (f, std, " ".join(flags))
            if rules is None or (other and not headers_ok(f, std, flags)[0]):
                raise Broken("%s: the headers do not compile\n%s" % (where, out[:1500]))
            if other:
                # the library's interface is used in a documented way and rejected
                chk.ob("%s: a documented use of the library compiles" % prop, where, False, "\n".join(other[:6]))
            hit = {}
            for r, loc in bad:
                if prop in tags(r):
                    hit.setdefault(r, loc)
            n = 0
            for r in rules:
                if prop in tags(r):
                    n += 1
                    if r not in hit:
                        chk.ob(r, where, True)
            for r, loc in hit.items():
                chk.ob(r, where, False, "static assertion fails: %s" % r, loc)
            chk.unit("static assertions decided by the type checker", n)


def handle_jobs(tier):
    out = []
    for std in ("c++11", "c++14", "c++17", "c++20"):
        for k in ([], ["-DVF_CONT"]):
            for i in ([], ["-DBOOST_USE_UCONTEXT"], ["-DBOOST_USE_WINFIB", "-I" + os.path.join(HERE, "winstub")]):
                out.append((std, k + i))
    return out


def handles(prop):
    def f(chk, tier):
        run_file(chk, "handles.cpp", handle_jobs(tier), prop)
    return f


PROGS = "programs.cpp"


def attribute(out, lines):
    """the snippet each diagnostic belongs to: line number -> messages; diagnostics that belong to none under 0"""
    got = {}
    for b in re.split(r"(?m)^(?=.*: (?:fatal )?error: )", out)[1:]:
        ls = [int(n) for n in re.findall(r"programs\.cpp:(\d+):\d+:", b)]
        ls = [n for n in ls if n <= len(lines) and re.match(r"(USE|REJ|SAME|NOX)\(|static_assert", lines[n - 1])]
        first = b.splitlines()[0]
        got.setdefault(ls[0] if ls else 0, []).append(re.sub(r"^.*?/include/boost/", "boost/", first))
    return got


def active(flags, std, path):
    """the snippets the preprocessor leaves, by line"""
    rc, o = irrun.sh(["clang++", "-E", "-w", "-std=" + std, "-I", os.path.join(REPO, "include")] + flags + [path])
    if rc:
        return None
    out, cur = [], (0, "")
    for l in o.splitlines():
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m:
            cur = (int(m.group(1)), m.group(2))
            continue
        if cur[1].endswith(PROGS) and l.strip() and (re.match(r"void (use|rej)_\d+\(", l) or l.startswith("static_assert")):
            out.append(cur[0])
        cur = (cur[0] + 1, cur[1])
    return out


def program(job):
    std, flags = job
    path = os.path.join(HERE, "witness", PROGS)
    lines = open(path).read().split("\n")
    n = active(flags, std, path)
    rc, o = irrun.sh(ARGS + ["-std=" + std, "-I", os.path.join(REPO, "include")] + flags + [path])
    second = ""
    if not rc:
        rc, second = irrun.sh(["g++", "-w", "-fsyntax-only", "-std=" + std, "-I", os.path.join(REPO, "include")] + flags + [path])
    return job, n, attribute(o, lines) if n is not None else None, lines, o, second if rc else ""


def programs(chk, tier):
    win = ["-DBOOST_USE_WINFIB", "-I" + os.path.join(HERE, "winstub")]
    cet = [["-DBOOST_USE_ASAN"], ["-DBOOST_USE_TSAN", "-DBOOST_USE_UCONTEXT"], ["-DBOOST_USE_VALGRIND"], ["-DNDEBUG"]] if tier == "thorough" else []
    jobs = [(std, kind + back + rej) for std in ("c++11", "c++14", "c++17", "c++20") for kind in ([], ["-DVF_CONT"])
            for back in [[], ["-DBOOST_USE_UCONTEXT"], win] + cet for rej in ([], ["-DVF_REJECT"])]
    # the branch for macOS of the ucontext headers
    jobs += [("c++17", kind + ["-DBOOST_USE_UCONTEXT", "-Dmacintosh"]) for kind in ([], ["-DVF_CONT"])]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(program, jobs))
    dead = [r for r in res if r[1] is None or (r[2].get(0) and not headers_ok(PROGS, r[0][0], [f for f in r[0][1] if f != "-DVF_REJECT"])[0])]
    if len(dead) == len(res):
        raise Broken("witness/%s: the headers do not compile\n%s" % (PROGS, dead[0][4][:1500]))
    for r in res:
        (std, flags), snip, got, lines, out, second = r
        rej = "-DVF_REJECT" in flags
        where = "%s %s" % (std, " ".join(os.path.relpath(f[2:], HERE).join(["-I", ""]) if f.startswith("-I") else f for f in flags if f != "-DVF_REJECT"))
        if r in dead:
            chk.ob("C24: every backend accepts the programs that another one accepts", where, False, "the headers do not compile in this mode: %s" % "\n".join(l for l in out.splitlines() if "error:" in l)[:600])
            continue
        if not rej and got.get(0):
            # a diagnostic no snippet explains: an error in a body that is not a template
            chk.ob("C24: every backend accepts the programs that another one accepts", where, False, "; ".join(got[0])[:600])
        if not rej:
            chk.ob("C24: the other compiler accepts them, too", where, not second, "; ".join(l for l in second.splitlines() if "error:" in l)[:600])
        for n in snip:
            text = re.sub(r"\s+", " ", lines[n - 1])[:160]
            if text.startswith("REJ"):
                chk.ob("C24: every backend rejects a program that would copy, leak or bypass a handle", "%s: witness/%s:%d %s" % (where, PROGS, n, text), bool(got.get(n)), "the program is accepted")
            elif text.startswith("USE"):
                chk.ob("C24: every backend accepts the programs that another one accepts", "%s: witness/%s:%d %s" % (where, PROGS, n, text), not got.get(n), "; ".join(got.get(n, []))[:600])
            elif not rej:
                chk.ob("C24: result types and exception specifications are the same on every backend", "%s: witness/%s:%d %s" % (where, PROGS, n, text), not got.get(n), "; ".join(got.get(n, []))[:600])
        chk.unit("programs put to the type checker", len(snip))


def fallbacks(chk, tier):
    run_file(chk, "fallbacks.cpp", [("c++11", []), ("c++14", []), ("c++17", [])], "C17")
    run_file(chk, "handles.cpp", handle_jobs(tier), "C17")
