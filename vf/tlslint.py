"""C14, last clause: no address of a thread-local location is live across a call that may switch contexts.

The clients and the library are compiled with optimisation (so that helper functions are inlined and common subexpressions shared), and on the
optimised IR: TLS-derived := results of llvm.threadlocal.address, geps/phis/selects/casts of those, and results of functions that may return such
a value (least fixpoint over the linked module). May-switch := the switch primitives and everything that may call them (least fixpoint; indirect calls
may switch). Every register live after a may-switch call must not be TLS-derived."""
import os, shutil, tempfile
from concurrent.futures import ProcessPoolExecutor
from vf.report import REPO, HERE, Broken
from vf import irrun

PRIM = {"swapcontext", "setcontext", "jump_fcontext", "ontop_fcontext", "SwitchToFiber"}
PROP = {"gep", "bitcast", "phi", "select", "freeze", "ptrtoint", "inttoptr", "add", "addrspacecast"}


def address_taken(m, fns, callee):
    """defined functions whose address is used other than as the target of a call, by the widths of their parameters"""
    from llvmir import GlobalRef, L
    seen = set()

    def walk(x):
        if isinstance(x, GlobalRef):
            seen.add(m.alias.get(x.name, x.name))
        elif type(x) in (tuple, list):
            for y in x:
                walk(y)
        elif type(x) is dict:
            for y in x.values():
                walk(y)
    for n, f in fns.items():
        for b in f.blocks:
            for ins in b:
                walk(ins[4] if ins[0] in ("call", "invoke") else ins[2:])
    for g in m.gv.values():
        i = L.GetInitializer(g)
        if i:
            walk(m.const(i))
    out = {}
    for n in seen:
        f = fns.get(n)
        if f:
            out.setdefault(tuple(t.bits for t in f.ptypes), set()).add(n)
    return out


def closure(m):
    fns = {}
    for n in m.fnptr:
        f = m.fn(n)
        if f and not f.decl:
            fns[n] = f
    from llvmir import GlobalRef

    def callee(ins):
        c = ins[3]
        if c[0] == "c" and isinstance(c[1], GlobalRef):
            return m.alias.get(c[1].name, c[1].name)
        return None if c[0] != "asm" else ""
    taken = address_taken(m, fns, callee)
    may = set(PRIM)

    def switches(ins):
        """an indirect call may reach any address-taken function with these parameters"""
        c = callee(ins)
        if c is None:
            t = taken.get(tuple(ins[9]), set())   # none: code outside of these sources, like any other external function
            return bool(t & may)
        return c in may
    grown = True
    while grown:
        grown = False
        for n, f in fns.items():
            if n in may:
                continue
            for b in f.blocks:
                for ins in b:
                    if ins[0] in ("call", "invoke"):
                        if switches(ins):
                            may.add(n)
                            grown = True
                            break
                if n in may:
                    break
    ret = set()

    def derived(f):
        d = set()
        while True:
            k = len(d)
            for b in f.blocks:
                for ins in b:
                    op = ins[0]
                    if op in ("call", "invoke"):
                        c = callee(ins)
                        if c and (c.startswith("llvm.threadlocal.address") or c in ret):
                            d.add(ins[1])
                    elif op == "phi":
                        if any(o[0] == "r" and o[1] in d for o in ins[2].values()):
                            d.add(ins[1])
                    elif op == "gep":
                        if ins[2][0] == "r" and ins[2][1] in d:
                            d.add(ins[1])
                    elif op in PROP and any(type(o) is tuple and o[0] == "r" and o[1] in d for o in ins[2]):
                        d.add(ins[1])
            if len(d) == k:
                return d
    while True:
        k = len(ret)
        for n, f in fns.items():
            if n in ret:
                continue
            d = derived(f)
            for b in f.blocks:
                t = b[-1]
                if t[0] == "ret" and any(o[0] == "r" and o[1] in d for o in t[2] if type(o) is tuple):
                    ret.add(n)
        if len(ret) == k:
            break
    return fns, callee, may, ret, derived, switches


def at_exit(m, fns, callee):
    """functions that run only while a thread ends: on its main context, which no other thread resumes"""
    from llvmir import GlobalRef
    reg, callers, taken = set(), {}, set()
    for n, f in fns.items():
        for b in f.blocks:
            for ins in b:
                if ins[0] in ("call", "invoke"):
                    c = callee(ins)
                    if c:
                        callers.setdefault(c, set()).add(n)
                    ops = list(ins[4])
                    if c in ("__cxa_thread_atexit", "__cxa_thread_atexit_impl", "__cxa_atexit"):
                        o = ops.pop(0)
                        if o[0] == "c" and isinstance(o[1], GlobalRef):
                            reg.add(m.alias.get(o[1].name, o[1].name))
                else:
                    ops = []
                    for x in ins[2:]:
                        ops += [x] if type(x) is tuple else list(x.values()) if type(x) is dict else list(x) if type(x) is list else []
                for o in ops:
                    if type(o) is tuple and len(o) > 1 and o[0] == "c" and isinstance(o[1], GlobalRef):
                        taken.add(m.alias.get(o[1].name, o[1].name))
    out = set(r for r in reg if r in fns and not callers.get(r) and r not in taken)
    grown = True
    while grown:
        grown = False
        for n in fns:
            if n not in out and n not in taken and callers.get(n) and callers[n] <= out:
                out.add(n)
                grown = True
    return out


def lint(bc):
    from llvmir import Module, live_after
    from natives import demangle
    m = Module(bc)
    fns, callee, may, ret, derived, switches = closure(m)
    bad, sites, tls = [], 0, 0
    ends = at_exit(m, fns, callee)
    for n, f in fns.items():
        if n in ends:
            continue
        d = derived(f)
        tls += len(d)
        for bi, b in enumerate(f.blocks):
            for i, ins in enumerate(b):
                if ins[0] not in ("call", "invoke"):
                    continue
                c = callee(ins)
                if not switches(ins):
                    continue
                sites += 1
                if not d:
                    continue
                if ins[0] == "call":
                    lv = set(live_after(f, bi, i + 1))
                else:
                    lv = set()
                    for s in (ins[6], ins[7]):
                        lv |= set(live_after(f, s, 0))
                        for x in f.blocks[s]:
                            if x[0] == "phi":
                                o = x[2].get(bi)
                                if o and o[0] == "r":
                                    lv.add(o[1])
                lv.discard(ins[1])
                hit = lv & d
                if hit:
                    bad.append((demangle(n), "%s:%d" % ins[8], demangle(c) if c else "an indirect call"))
    return bad, {"may-switch call sites": sites, "functions in the linked optimised IR": len(fns), "TLS-derived values": tls, "functions returning a TLS location": len(ret), "functions that may switch": len(may)}, sorted(demangle(x) for x in ret)


def _one(a):
    driver, std, flags, src, opt = a
    tmp = tempfile.mkdtemp(prefix="vftls")
    try:
        bcs = []
        for s in [os.path.join(HERE, "drivers", driver + ".cpp")] + [os.path.join(REPO, x) for x in src]:
            o = os.path.join(tmp, os.path.basename(s) + ".bc")
            rc, msg = irrun.sh(["clang++", "-std=" + std, opt, "-gline-tables-only", "-fno-discard-value-names", "-emit-llvm", "-c", "-w", "-fPIC", "-I", os.path.join(REPO, "include"),
                                "-I", os.path.join(HERE, "drivers"), s, "-o", o] + list(flags))
            if rc:
                return ("compile", msg[:1500])
            bcs.append(o)
        out = os.path.join(tmp, "all.bc")
        rc, msg = irrun.sh([irrun.LLVMLINK] + bcs + ["-o", out])
        if rc:
            return ("compile", msg[:1500])
        return ("ok", lint(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


UC = ["src/fiber.cpp", "src/continuation.cpp"]
FC = ["src/fcontext.cpp"]


def run(chk, tier):
    jobs = []
    for d in ("life1", "ontop", "thread"):
        for std in (("c++11", "c++17") if tier == "quick" else ("c++11", "c++14", "c++17", "c++20")):
            for opt in ("-O2",) if tier == "quick" else ("-O1", "-O2", "-O3"):
                for k in ((), ("-DVF_CONT",)):
                    jobs.append((d, std, ("-DNDEBUG", "-DBOOST_USE_UCONTEXT") + k, UC, opt))
                    if tier != "quick":
                        jobs.append((d, std, ("-DNDEBUG",) + k, FC, opt))
    with ProcessPoolExecutor(8) as ex:
        res = list(ex.map(_one, jobs))
    pos = False
    for j, (st, r) in zip(jobs, res):
        nm = "%s %s %s %s" % (j[0], j[1], j[4], " ".join(j[2]))
        if st != "ok":
            raise Broken("%s: %s" % (nm, r))
        bad, n, ret = r
        for k, v in n.items():
            chk.unit("TLS lint: " + k, v)
        rule = "C14: no address of a thread-local location is live across a call that may switch contexts"
        for fn, loc, c in bad:
            chk.ob(rule, nm, False, "%s: a thread-local address obtained before the call of %s at %s is used after it" % (fn, c, loc), loc)
        if not bad:
            chk.ob(rule, nm, True)
        pos |= bool(ret)
    # an empty set of TLS locations in ucontext builds would mean the rule sees nothing; the per-thread rules of the drivers still apply
    chk.unit("TLS lint: configurations with TLS-returning functions", int(pos))
