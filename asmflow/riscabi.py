"""Calling conventions of the non-x86 targets and their composition checks."""
import os, re, subprocess
from core import *
import core
import risc
from risc import *
from x86abi import Result, top_offset


def rng(fmt_, a, b):
    return [fmt_ % i for i in range(a, b + 1)]


class Abi:
    """one calling convention.  link = the return-address register."""
    entry_mod = (16, 0)
    entry_room = 0              # bytes above the entry stack pointer that the callee may use
    callee_area = []            # [(lo, hi)) ranges above the stack pointer a callee may write
    hidden = False              # the two-word result is returned through a hidden pointer
    extra = []                  # further registers, not callee-saved, that hold thread or FP state
    tail = None
    exit_name = "_exit"
    teb = []
    fpctl = []                  # floating-point control registers the routines save
    descr = False               # function pointers are descriptors
    entry_extra = None
    keep = []                   # registers of the thread: a switch leaves them alone
    sp_limit = 0                # the caller's part of the stack begins here
    byref = False               # a two-word argument is passed by reference

    def regs(self):
        raise NotImplementedError

    def setup(self, st, who, kind, vals):
        a = self.arch
        for r in self.regs():
            st.regs[r] = S("%s_%s" % (who, r))
        sp = "SP_" + who
        core.ALIGN[sp] = self.entry_mod
        st.regs[a.spname] = S(sp)
        st.regs[self.link] = S("RA_" + who)
        args = list(vals)
        if kind != "make" and self.hidden:
            args = [S("SRET_" + who)] + args
        for r, v in zip(self.args, args):
            st.regs[r] = v

    def resume_at(self, who):
        return S("RA_" + who)

    def linkval(self, st):
        return st.regs[self.link]

    def spfree(self, st):
        """lowest address of the caller's part of the stack"""
        return st.regs[self.arch.spname]

    def fncode(self, st, f):
        return f

    def pair_at(self, st, p):
        w = self.arch.w
        return self.arch.load(st, p, w), self.arch.load(st, p.add(w), w)

    def result(self, st, who):
        """what the suspended call of `who` returns"""
        if self.hidden:
            return self.pair_at(st, S("SRET_" + who))
        return st.regs[self.ret[0]], st.regs[self.ret[1]]

    def result_of_unknown(self, st):
        """the pair handed to an arbitrary suspended target"""
        if self.hidden:
            w = self.arch.w
            for (addr, n, ins, ob, sp) in reversed(st.writes):
                if isinstance(addr.base, tuple) and addr.base[0] == "mem":
                    return self.pair_at(st, Val(addr.base))
            return self.ctxargs(st)
        return st.regs[self.ret[0]], st.regs[self.ret[1]]

    def fnargs(self, st):
        """arguments of the injected function"""
        a = self.args[1:] if self.hidden else self.args
        if self.byref:
            return self.pair_at(st, st.regs[a[0]])
        return st.regs[a[0]], st.regs[a[1]]

    def ctxargs(self, st):
        """arguments of the context function"""
        if self.byref:
            return self.pair_at(st, st.regs[self.args[0]])
        return st.regs[self.args[0]], st.regs[self.args[1]]

    def link_setup(self, st, pc):
        """state at the start of a routine"""
        pass


class A64(Abi):
    def __init__(self):
        self.arch = AArch64()
    link = "x30"
    args = ["x0", "x1", "x2", "x3"]
    ret = ["x0", "x1"]
    cs = rng("x%d", 19, 29) + rng("d%d", 8, 15)

    def regs(self):
        return rng("x%d", 0, 30) + ["sp"] + rng("d%d", 0, 31)


class A64Mac(A64):
    exit_name = "__exit"


class A64Pe(A64):
    teb = [(0x8, "stack base"), (0x10, "stack limit"), (0x20, "fiber data"), (0x1478, "deallocation stack")]

    def setup(self, st, who, kind, vals):
        A64.setup(self, st, who, kind, vals)
        st.regs["x18"] = S("TEB")
        for off, n in self.teb:
            st.mem.store(S("TEB").add(off), S("%s_%s" % (n.replace(" ", "_"), who)), 8)


class A32(Abi):
    def __init__(self):
        self.arch = Arm()
    entry_mod = (8, 0)
    link = "lr"
    hidden = True
    args = ["r0", "r1", "r2", "r3"]
    cs = rng("r%d", 4, 11) + rng("d%d", 8, 15)

    def regs(self):
        return rng("r%d", 0, 12) + ["sp", "lr"] + rng("d%d", 0, 15)


class A32Soft(A32):
    cs = rng("r%d", 4, 11)


class A32Mac(A32):
    entry_mod = (4, 0)                  # Apple's armv7 convention
    exit_name = "__exit"
    # Darwin: r7 is the frame pointer, r9 is volatile since iOS 3; r4-r8, r10, r11 preserved
    cs = rng("r%d", 4, 8) + ["r10", "r11"] + rng("d%d", 8, 15)
    teb = [(0x48, "SjLj handler chain")]

    def setup(self, st, who, kind, vals):
        A32.setup(self, st, who, kind, vals)
        core.ALIGN["TEB"] = (4096, 0)
        st.regs["tls_c13_c0_3"] = S("TEB")
        for off, n in self.teb:
            st.mem.store(S("TEB").add(off), S("%s_%s" % (n.replace(" ", "_"), who)), 4)


class A32Pe(A32):
    teb = [(0x4, "stack base"), (0x8, "stack limit"), (0xe0c, "deallocation stack")]

    def setup(self, st, who, kind, vals):
        A32.setup(self, st, who, kind, vals)
        st.regs["tls_c13_c0_2"] = S("TEB")
        for off, n in self.teb:
            st.mem.store(S("TEB").add(off), S("%s_%s" % (n.replace(" ", "_"), who)), 4)


class RV64(Abi):
    def __init__(self):
        self.arch = RiscV()
    link = "ra"
    args = ["a0", "a1", "a2", "a3"]
    ret = ["a0", "a1"]
    cs = rng("s%d", 0, 11) + rng("fs%d", 0, 11)
    keep = ["gp", "tp"]

    def regs(self):
        return ["ra", "sp", "gp", "tp"] + rng("t%d", 0, 6) + rng("s%d", 0, 11) + rng("a%d", 0, 7) + rng("ft%d", 0, 11) + rng("fs%d", 0, 11) + rng("fa%d", 0, 7)


class LA64(Abi):
    def __init__(self):
        self.arch = Loong()
    link = "$ra"
    args = ["$a0", "$a1", "$a2", "$a3"]
    ret = ["$a0", "$a1"]
    cs = rng("$s%d", 0, 8) + ["$fp"] + rng("$fs%d", 0, 7)
    keep = ["$tp"]

    def regs(self):
        return ["$ra", "$tp", "$sp", "$fp"] + rng("$a%d", 0, 7) + rng("$t%d", 0, 8) + rng("$s%d", 0, 8) + rng("$fs%d", 0, 7) + rng("$fa%d", 0, 7) + rng("$ft%d", 0, 15)


class O32(Abi):
    def __init__(self):
        self.arch = Mips(32)
    entry_mod = (8, 0)
    entry_room = 16
    callee_area = [(0, 16)]
    link = "$ra"
    hidden = True
    args = ["$4", "$5", "$6", "$7"]
    cs = rng("$%d", 16, 23) + ["$fp"] + rng("$f%d", 20, 31)[::2]

    def regs(self):
        return rng("$%d", 1, 27) + ["$gp", "$sp", "$fp", "$ra"] + rng("$f%d", 0, 31)

    def link_setup(self, st, pc):
        st.regs["$25"] = pc          # calls go through $25

    def setup(self, st, who, kind, vals):
        Abi.setup(self, st, who, kind, vals)


class N64(Abi):
    def __init__(self):
        self.arch = Mips(64)
    link = "$ra"
    args = ["$4", "$5", "$6", "$7"]
    ret = ["$2", "$3"]
    cs = rng("$%d", 16, 23) + ["$fp", "$gp"] + rng("$f%d", 24, 31)

    def regs(self):
        return rng("$%d", 1, 27) + ["$gp", "$sp", "$fp", "$ra"] + rng("$f%d", 0, 31)

    def link_setup(self, st, pc):
        st.regs["$25"] = pc

    gp_in_make = True


class P32(Abi):
    """System V, structures returned in memory (the Linux convention)"""
    def __init__(self):
        self.arch = Ppc(32, False)
    entry_room = 8
    callee_area = [(4, 8)]              # LR save word of the caller's frame
    link = "lr"
    hidden = True
    byref = True
    args = ["r3", "r4", "r5", "r6"]
    cs = rng("r%d", 14, 31) + rng("f%d", 14, 31) + ["cr"]
    fpctl = ["fpscr"]
    keep = ["r2", "r13"]
    tail = "ontop_fcontext_tail"

    def regs(self):
        return rng("r%d", 0, 31) + rng("f%d", 0, 31) + ["lr", "ctr", "cr", "fpscr"]


class P64v1(Abi):
    def __init__(self):
        self.arch = Ppc(64, False)
    entry_room = 64                     # linkage area and the two argument doublewords
    callee_area = [(8, 24), (48, 112)]
    link = "lr"
    hidden = True
    descr = True
    args = ["r3", "r4", "r5", "r6"]
    keep = ["r13"]
    cs = ["r2"] + rng("r%d", 14, 31) + rng("f%d", 14, 31) + ["cr"]

    def regs(self):
        return rng("r%d", 0, 31) + rng("f%d", 0, 31) + rng("v%d", 0, 31) + ["lr", "ctr", "cr", "fpscr"]

    def fncode(self, st, f):
        return self.arch.load(st, f, 8)

    def entry_extra(self, st, f):
        return [("TOC pointer", st.regs["r2"], self.arch.load(st, f.add(8), 8))]


class P64v2(Abi):
    def __init__(self):
        self.arch = Ppc(64, True)
    entry_room = 32
    callee_area = [(8, 24)]
    link = "lr"
    args = ["r3", "r4", "r5", "r6"]
    ret = ["r3", "r4"]
    cs = rng("r%d", 14, 31) + rng("f%d", 14, 31) + rng("v%d", 20, 31) + ["cr"]
    keep = ["r13"]

    def regs(self):
        return rng("r%d", 0, 31) + rng("f%d", 0, 31) + rng("v%d", 0, 31) + ["lr", "ctr", "cr", "fpscr"]

    def link_setup(self, st, pc):
        st.regs["r12"] = pc

    def entry_extra(self, st, f):
        return [("global entry register r12", st.regs["r12"], f)]


class Z64(Abi):
    def __init__(self):
        self.arch = S390()
    entry_mod = (8, 0)
    entry_room = 160
    callee_area = [(0, 160)]
    link = "%r14"
    hidden = True
    byref = True
    args = ["%r2", "%r3", "%r4", "%r5"]
    cs = rng("%%r%d", 6, 13) + rng("%%f%d", 8, 15)
    fpctl = ["fpc"]

    def regs(self):
        return rng("%%r%d", 0, 15) + rng("%%f%d", 0, 15) + ["fpc"]


class V9(Abi):
    def __init__(self):
        self.arch = Sparc()
    entry_mod = (16, 1)                 # %sp is biased by 2047
    entry_room = 2047 + 176
    callee_area = [(2047, 2047 + 176)]
    link = "o7"
    args = ["o0", "o1", "o2", "o3"]
    ret = ["o0", "o1"]
    cs = rng("l%d", 0, 7) + rng("i%d", 0, 7)
    keep = ["g6", "g7"]
    sp_limit = 2047

    def regs(self):
        return rng("g%d", 1, 7) + rng("o%d", 0, 7) + rng("l%d", 0, 7) + rng("i%d", 0, 7)

    def setup(self, st, who, kind, vals):
        Abi.setup(self, st, who, kind, vals)
        st.regs["o7"] = S("RA_" + who).add(-8)

    def linkval(self, st):
        return st.regs["o7"].add(8)


# ------------------------------------------------------------------ sources
ARMASM_DROP = re.compile(r"^\s*(AREA|EXPORT|IMPORT|ENDP|END|ALIGN|THUMB|ARM|CODE\d+)\b", re.I)


def armasm_to_gas(path, out, width):
    """the armasm dialect differs from gas in comments, labels and directives only"""
    res = [".text", ".syntax unified" if width == 32 else "", ".p2align 2"]
    alias = {}
    if width == 32:
        for i in range(4):
            alias["a%d" % (i + 1)] = "r%d" % i
        for i in range(8):
            alias["v%d" % (i + 1)] = "r%d" % (i + 4)
    for ln in open(path, encoding="latin-1"):
        ln = ln.split(";")[0].rstrip()
        if not ln.strip():
            continue
        m = re.match(r"^(\w+)\s+(proc)\b", ln, re.I)
        if m:
            res += [".globl " + m.group(1), m.group(1) + ":"]
            continue
        if ARMASM_DROP.match(ln):
            continue
        m = re.match(r"^(\w+)\s*$", ln)
        if m:
            res.append(m.group(1) + ":")
            continue
        if not ln[0].isspace():
            raise AsmError("%s: cannot read '%s'" % (path, ln))
        for a, r in alias.items():
            ln = re.sub(r"\b%s\b" % a, r, ln)
        if width == 64:
            ln = re.sub(r"\bfp\b", "x29", re.sub(r"\blr\b", "x30", ln))
        res.append(ln)
    open(out, "w").write("\n".join(res) + "\n")
    return out


def check_risc(R, cfg, abi, srcs, target, flags, tmp, opts):
    objs, byk = {}, {}
    for k, p in srcs.items():
        o = os.path.join(tmp, "%s_%s.o" % (cfg, k))
        src = p
        if opts.get("armasm"):
            src = armasm_to_gas(p, os.path.join(tmp, "%s_%s.s" % (cfg, k)), opts["armasm"])
        assemble(src, target, flags, o)
        ob = disassemble(o, p, opts.get("objdump", ()))
        ob.path = o
        objs[o] = ob
        byk[k] = ob
    arch = abi.arch
    pre = opts.get("prefix", "")
    W = arch.w

    def entry(k):
        ob = byk[k]
        names = [pre + k + "_fcontext", "." + k + "_fcontext", ".L." + k + "_fcontext"]
        for n in names:
            if n in ob.syms and n != pre + k + "_fcontext" or n in ob.syms and not abi.descr:
                return Val(("code", ob.path), ob.syms[n])
        if abi.descr and ob.order:
            return Val(("code", ob.path), ob.order[0])
        raise AsmError("%s defines no %s" % (ob.src, names[0]))

    vp = {w: S("VP_" + w) for w in "ABCDE"}
    n_ins = [0]

    def call(st, who, kind, to, fn=None):
        vals = {"jump": [to, vp[who]], "ontop": [to, vp[who], fn]}[kind]
        abi.setup(st, who, kind, vals)
        pc = entry(kind)
        abi.link_setup(st, pc)
        return pc

    def go(st, pc):
        outs = rrun(arch, st, objs, pc)
        n_ins[0] += sum(len(s.trace) for s, _ in outs)
        return outs

    def allowed(addr, n):
        return addr.off + n <= abi.sp_limit or any(lo <= addr.off and addr.off + n <= hi for lo, hi in abi.callee_area)

    def fn_reached(st, ex, who):
        """control is at the injected function of `who`"""
        want = abi.fncode(st, S("FN_" + who))
        if abi.tail and ex == Val(("extern", abi.tail)):
            return True
        return ex == want

    def fn_args(st, ex):
        if abi.tail and ex == Val(("extern", abi.tail)):
            # C++ tail: ( hidden, ignored, vp, fn, from )
            return st.regs["r7"], st.regs["r5"]
        return abi.fnargs(st)

    # ---------- suspend through x, resumed through y
    for x in ("jump", "ontop"):
        st = RState(arch)
        pc = call(st, "A", x, S("T"), S("FN_A"))
        src = byk[x].src
        kA = None
        for st, ex in go(st, pc):
            for (addr, n, ins, ob, sp) in st.writes:
                if addr.base == "SP_A":
                    R.ob("suspend writes only below the stack pointer", cfg, allowed(addr, n), "%s: '%s' writes %r (%d bytes), above the suspended stack pointer" % (os.path.basename(ob.src), ins.text, addr, n), ob.src)
            if x == "jump":
                b = ex.base
                R.ob("jump leaves through the target's saved return address", cfg, isinstance(b, tuple) and b[0] == "mem" and (b[2].base == "T"), "control leaves to %r" % ex, src)
            else:
                # a context that has not run yet is entered by some ports through its own frame
                okx = fn_reached(st, ex, "A")
                R.ob("ontop enters the injected function", cfg, okx, "control leaves to %r, expected the function argument" % ex, src)
                if abi.tail and ex == Val(("extern", abi.tail)):
                    R.ob("ontop enters the injected function", cfg, st.regs["r6"] == S("FN_A"), "the C++ tail is handed %r as function" % st.regs["r6"], src)
            R.ob("switch uses no system call", cfg, not st.effects, "%s executes %s" % (os.path.basename(src), st.effects[0][1].text if st.effects else ""), src)
            if isinstance(ex.base, tuple) and ex.base[0] == "extern" and ex.base[1] != abi.tail:
                R.ob("switch calls nothing", cfg, False, "%s calls %r" % (os.path.basename(src), ex), src)
            f, d = abi.result_of_unknown(st) if x == "jump" else fn_args(st, ex)
            R.ob("%s delivers the data pointer" % x, cfg, d == vp["A"], "%s hands over data %r instead of its argument" % (os.path.basename(src), d), src)
            okf = f.base == "SP_A" and f.off < 0
            R.ob("%s delivers the suspended context" % x, cfg, okf, "%s hands over %r as suspended context" % (os.path.basename(src), f), src)
            if not okf:
                continue
            kA = f
            for y in ("jump", "ontop"):
                s2 = st.copy()
                s2.writes, s2.trace, s2.effects, s2.forks = [], [], [], {}
                s2.wins = list(st.wins)
                pc2 = call(s2, "B", y, kA, S("FN_B"))
                for s3, ex2 in go(s2, pc2):
                    tag = "%s->%s" % (x, y)
                    srcy = byk[y].src
                    what = "suspended in %s_fcontext, resumed by %s_fcontext" % (x, y)
                    # descriptors' TOC belongs to the injected function while it runs
                    for r in abi.cs:
                        if y == "ontop" and abi.descr and r == "r2":
                            continue
                        R.ob("callee-saved %s restored (%s)" % (r.lstrip("$%"), tag), cfg, s3.regs[r] == S("A_" + r), "%s: register %s of the resumed context holds %r, not its value at suspension" % (what, r, s3.regs[r]), srcy)
                    for r in abi.keep:
                        R.ob("thread register %s left alone (%s)" % (r.lstrip("$%"), tag), cfg, s3.regs[r] == S("B_" + r), "%s: register %s holds %r" % (what, r, s3.regs[r]), srcy)
                    for r in abi.fpctl:
                        R.ob("%s restored (%s)" % (r, tag), cfg, s3.regs[r] == S("A_" + r), "%s: %s holds %r" % (what, r, s3.regs[r]), srcy)
                    for off, n in abi.teb:
                        g = arch.load(s3, S("TEB").add(off), W)
                        R.ob("TEB %s restored (%s)" % (n, tag), cfg, g == S("%s_A" % n.replace(" ", "_")), "%s: TEB %s is %r" % (what, n, g), srcy)
                    for (addr, n, ins, ob, sp) in s3.writes:
                        if addr.base == "SP_A":
                            R.ob("resume does not overwrite the resumed stack (%s)" % tag, cfg, allowed(addr, n), "%s: '%s' writes %r" % (what, ins.text, addr), ob.src)
                    R.ob("stack pointer restored (%s)" % tag, cfg, s3.regs[arch.spname] == S("SP_A"), "%s: stack pointer is %r, expected %r" % (what, s3.regs[arch.spname], S("SP_A")), srcy)
                    if y == "jump":
                        R.ob("resumed at its return address (%s)" % tag, cfg, ex2 == S("RA_A"), "%s: continues at %r instead of after the suspending call" % (what, ex2), srcy)
                        f2, d2 = abi.result(s3, "A")
                        R.ob("suspended call returns the resumer's data (%s)" % tag, cfg, d2 == vp["B"], "%s: data is %r" % (what, d2), srcy)
                        R.ob("suspended call returns the resumer's context (%s)" % tag, cfg, f2.base == "SP_B" and f2.off < 0, "%s: context is %r" % (what, f2), srcy)
                    else:
                        okx = fn_reached(s3, ex2, "B")
                        R.ob("injected function entered (%s)" % tag, cfg, okx, "%s: control goes to %r" % (what, ex2), srcy)
                        R.ob("injected function returns into the suspended call (%s)" % tag, cfg, abi.linkval(s3) == S("RA_A"), "%s: the injected function would return to %r, not into the suspended call" % (what, abi.linkval(s3)), srcy)
                        if abi.hidden:
                            R.ob("injected function's result becomes the suspended call's (%s)" % tag, cfg, s3.regs[abi.args[0]] == S("SRET_A"), "%s: the injected function would store its result through %r" % (what, s3.regs[abi.args[0]]), srcy)
                        f2, d2 = fn_args(s3, ex2)
                        R.ob("injected function gets the resumer's data (%s)" % tag, cfg, d2 == vp["B"], "%s: data is %r" % (what, d2), srcy)
                        R.ob("injected function gets the resumer's context (%s)" % tag, cfg, f2.base == "SP_B" and f2.off < 0, "%s: context is %r" % (what, f2), srcy)
                        if abi.entry_extra:
                            for n, got, want in abi.entry_extra(s3, S("FN_B")):
                                R.ob("injected function gets its %s (%s)" % (n, tag), cfg, got == want, "%s: it is %r" % (what, got), srcy)
        if kA is None:
            continue
    # ---------- fresh context
    src = byk["make"].src
    st = RState(arch)
    core.ALIGN.pop("TOP", None)
    abi.setup(st, "M", "make", [S("TOP"), S("SIZE"), S("ENTRY")])
    if getattr(abi, "gp_in_make", False):
        st.regs["$gp"] = S("GP")         # n64: the caller and the routine share one module
    pc = entry("make")
    abi.link_setup(st, pc)
    rsv = {r: st.regs[r] for r in abi.cs}
    for st, ex in go(st, pc):
        k = st.regs[getattr(abi, "make_ret", None) or (abi.ret[0] if not abi.hidden else {"$4": "$2"}.get(abi.args[0], abi.args[0]))]
        R.ob("make returns to its caller", cfg, ex == S("RA_M") and st.regs[arch.spname] == S("SP_M"), "make_fcontext leaves to %r with stack pointer %r" % (ex, st.regs[arch.spname]), src)
        for r in abi.cs:
            R.ob("make preserves callee-saved %s" % r.lstrip("$%"), cfg, st.regs[r] == rsv[r], "%s holds %r on return from make_fcontext" % (r, st.regs[r]), src)
        _, top = top_offset(k)
        if top is None or top >= 0:
            R.ob("make returns a context inside the stack", cfg, False, "returned context is %r" % k, src)
            continue
        R.ob("make returns a context inside the stack", cfg, True, "", src)
        for (addr, n, ins, ob, sp) in st.writes:
            b, o = top_offset(addr)
            if o is not None:
                R.ob("make writes only inside the new stack", cfg, o + n <= 0 and o >= -1024, "'%s' writes %r, outside [sp-size, sp)" % (ins.text, addr), src)
            else:
                R.ob("make writes only inside the new stack", cfg, addr.base == "SP_M" and allowed(addr, n), "'%s' writes %r" % (ins.text, addr), src)
        s2 = st.copy()
        s2.writes, s2.trace, s2.effects, s2.forks = [], [], [], {}
        pc2 = call(s2, "B", "jump", k)
        if getattr(abi, "gp_in_make", False):
            s2.regs["$gp"] = S("GP_B")
        for s3, ex2 in go(s2, pc2):
            want = abi.fncode(s3, S("ENTRY"))
            R.ob("first jump enters the context function", cfg, ex2 == want, "the first jump to a fresh context ends at %r, not at the context function" % ex2, src)
            sp = s3.regs[arch.spname]
            _, o = top_offset(sp)
            m = alignment(sp)
            wm, wr = abi.entry_mod
            R.ob("context function entered with aligned stack", cfg, o is not None and m is not None and m[0] % wm == 0 and (m[1] - wr) % wm == 0, "stack pointer at entry is %r (alignment %r), the ABI wants sp mod %d == %d" % (sp, m, wm, wr), src)
            R.ob("entry frame inside the new stack", cfg, o is not None and o + abi.entry_room <= 0, "stack pointer at entry is %r; %d bytes above it belong to the entry frame" % (sp, abi.entry_room), src)
            f, d = abi.ctxargs(s3)
            R.ob("context function gets the jumper's context", cfg, f.base == "SP_B" and f.off < 0, "context argument is %r" % f, src)
            R.ob("context function gets the jumper's data", cfg, d == vp["B"], "data argument is %r" % d, src)
            if abi.byref:
                p = s3.regs[abi.args[0]]
                _, po = top_offset(p)
                R.ob("argument block inside the new stack, above the entry frame's reach", cfg, po is not None and o is not None and po + 2 * W <= 0 and po >= o + abi.entry_room, "the argument block is at %r, the stack pointer at entry %r" % (p, sp), src)
            if abi.entry_extra:
                for n, got, want in abi.entry_extra(s3, S("ENTRY")):
                    R.ob("context function gets its %s" % n, cfg, got == want, "it is %r" % got, src)
            for r in abi.fpctl:
                R.ob("fresh context has creator's %s" % r, cfg, s3.regs[r] == S("M_" + r), "%s is %r" % (r, s3.regs[r]), src)
            for off, n in abi.teb:
                g = arch.load(s3, S("TEB").add(off), W)
                R.ob("TEB %s of a fresh context is initialised" % n, cfg, not uninit(g), "TEB %s is loaded from stack memory make_fcontext never wrote (%r)" % (n, g), src)
                if n == "stack base":
                    R.ob("TEB stack base set for fresh context", cfg, g == S("TOP"), "TEB stack base is %r" % g, src)
                if n == "fiber data":
                    R.ob("TEB fiber data set for fresh context", cfg, g.const == 0 or g == S("fiber_data_M"), "TEB fiber data is %r" % g, src)
                if n in ("stack limit", "deallocation stack"):
                    ok = g in (Val(("add", S("TOP"), Val(("neg", S("SIZE"))))), Val(("sub", S("TOP"), S("SIZE"))))
                    R.ob("TEB %s set for fresh context" % n, cfg, ok, "TEB %s is %r" % (n, g), src)
            for (addr, n, ins, ob, sp_) in s3.writes:
                _, o2 = top_offset(addr)
                if o2 is not None:
                    R.ob("entry writes only inside the new stack", cfg, o2 + n <= 0 and o2 >= -1024, "'%s' writes %r" % (ins.text, addr), ob.src)
                else:
                    R.ob("first jump writes through valid pointers only", cfg, addr.base in ("TEB", "SP_B"), "'%s' writes through %r, which make_fcontext never set or set wrong" % (ins.text, addr), ob.src)
            # the context function returns: it may have used everything below its stack pointer
            s4 = s3.copy()
            s4.trace, s4.effects, s4.forks = [], [], {}
            ra = abi.linkval(s4)
            keep = set(abi.cs) | {arch.spname}
            for r in abi.regs():
                if r not in keep and r not in ("r2",):
                    s4.regs[r] = fresh(r)
            if o is not None:
                clobber_below(s4, sp, abi)
            for s5, ex3 in go(s4, ra):
                if isinstance(ex3.base, tuple) and ex3.base[0] in ("halt", "fellout"):
                    R.ob("returning from the context function ends the process", cfg, False, "control reaches %r without calling _exit" % ex3, src)
                    continue
                nm = ex3.base[1] if isinstance(ex3.base, tuple) and ex3.base[0] == "extern" else None
                R.ob("returning from the context function ends the process", cfg, nm == abi.exit_name, "after the context function returns control goes to %r, not to _exit" % ex3, src)
                R.ob("the process exits with status zero", cfg, (s5.regs[abi.args[0]].const or 0) == 0 and s5.regs[abi.args[0]].const is not None, "exit status argument is %r" % s5.regs[abi.args[0]], src)
                m = alignment(s5.regs[arch.spname])
                R.ob("_exit called with aligned stack", cfg, m is not None and m[0] % wm == 0 and (m[1] - wr) % wm == 0, "stack pointer %r" % s5.regs[arch.spname], src)
    return n_ins[0], objs


def uninit(v):
    return isinstance(v.base, tuple) and v.base[0] in ("mem", "bytes")


def clobber_below(st, sp, abi):
    """the function that ran used the stack below sp and its argument area"""
    d = st.mem.cells.get(sp.base)
    if not d:
        return
    lim = sp.off + (2047 if isinstance(abi, V9) else 0)
    areas = [(lo + sp.off, hi + sp.off) for lo, hi in abi.callee_area]
    if isinstance(abi, V9):
        areas = []
    for k in list(d):
        if k < lim or any(a <= k < b for a, b in areas):
            d[k] = (S("clobbered"), 0, 1)
