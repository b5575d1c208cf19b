"""Calling-convention descriptions and the composition checks for x86 family."""
import os
from core import *
import core
from x86 import X86, State, run, R64


class Result:
    def __init__(self):
        self.obl = []      # (rule, cfg, ok, detail, src, line-ish)

    def ob(self, rule, cfg, ok, detail, src):
        self.obl.append((rule, cfg, bool(ok), detail, src))
        return ok


class Sysv64:
    """x86_64 System V (and x32): struct of two words in registers"""
    bits = 64
    cs = ["rbx", "rbp", "r12", "r13", "r14", "r15"]
    xmm_cs = []
    entry_mod = (16, 8)          # rsp mod 16 at function entry
    shadow = 0
    x32 = False
    teb = []
    guard = ("fs", 0x28)

    def args(self, kind):
        return {"jump": ["rdi", "rsi"], "ontop": ["rdi", "rsi", "rdx"], "make": ["rdi", "rsi", "rdx"]}[kind]

    def setup(self, st, who, kind, vals):
        for r in R64:
            st.regs[r] = S("%s_%s" % (who, r))
        for i in range(16):
            st.regs["xmm%d" % i] = S("%s_xmm%d" % (who, i))
        sp = "SP_" + who
        core.ALIGN[sp] = self.entry_mod
        st.regs["rsp"] = S(sp)
        st.mem.store(S(sp), S("RA_" + who), 8)
        st.mxcsr = S("MXCSR_" + who)
        st.fpcw = S("FPCW_" + who)
        st.ssp = S("SSP_" + who)
        if st.sh is not None:
            st.sh.store(st.ssp, S("RA_" + who), 8)
        st.mem.store(S(self.guard[0]).add(self.guard[1]), S("GUARD_" + who), 8)
        for i, n in enumerate(self.teb):
            pass
        for r, v in zip(self.args(kind), vals):
            st.regs[r] = v

    def resumed_sp(self, who):
        return S("SP_" + who).add(8)

    def retval(self, st, arch):
        """(fctx, data) returned by a switch"""
        if self.x32:
            v = st.regs["rax"]
            # data:fctx packed into rax
            b = v.base
            if isinstance(b, tuple) and b[0] == "or":
                x, y = b[1], b[2]
                for p, q in ((x, y), (y, x)):
                    if isinstance(q.base, tuple) and q.base[0] == "shl" and q.base[2].const == 32:
                        return p, q.base[1]
            return v, None
        return st.regs["rax"], st.regs["rdx"]

    def fnargs(self, st, arch, who_target):
        if self.x32:
            v = st.regs["rdi"]
            b = v.base
            if isinstance(b, tuple) and b[0] == "or":
                x, y = b[1], b[2]
                for p, q in ((x, y), (y, x)):
                    if isinstance(q.base, tuple) and q.base[0] == "shl" and q.base[2].const == 32:
                        return p, q.base[1]
            return v, None
        return st.regs["rdi"], st.regs["rsi"]

    def fn_entry_ok(self, st, who):
        """at entry of the injected function: stack as if called from who's suspended call"""
        return st.regs["rsp"] == S("SP_" + who) and st.mem.load(st.regs["rsp"], 8) == S("RA_" + who)

    make_ret = "rax"

    def exitarg_zero(self, st):
        return st.regs["rdi"].const == 0 or (st.regs["rdi"].base is None and st.regs["rdi"].off & 0xffffffff == 0)

    entry_room = 0              # bytes the entry frame needs above the return address
    seg = {}


class Ms64(Sysv64):
    cs = ["rbx", "rbp", "rdi", "rsi", "r12", "r13", "r14", "r15"]
    xmm_cs = ["xmm%d" % i for i in range(6, 16)]
    # TEB: stack base 0x8, limit 0x10, fiber data 0x20, deallocation stack 0x1478
    teb = [(0x8, "stack base"), (0x10, "stack limit"), (0x20, "fiber data"), (0x1478, "deallocation stack")]
    guard = None
    entry_room = 0x20
    seg = {"gs": S("TEB")}

    def args(self, kind):
        return {"jump": ["rcx", "rdx", "r8"], "ontop": ["rcx", "rdx", "r8", "r9"], "make": ["rcx", "rdx", "r8"]}[kind]

    def setup(self, st, who, kind, vals):
        self_guard, self.guard = self.guard, ("fs", 0x28)
        if kind != "make":
            vals = [S("SRET_" + who)] + list(vals)
        Sysv64.setup(self, st, who, kind, vals)
        self.guard = self_guard
        st.mem.store(S("TEB").add(0x30), S("TEB"), 8)
        for off, n in self.teb:
            st.mem.store(S("TEB").add(off), S("%s_%s" % (n.replace(" ", "_"), who)), 8)

    def retval(self, st, arch):
        p = st.regs["rax"]
        return st.mem.load(p, 8), st.mem.load(p.add(8), 8)

    def ret_ptr_ok(self, st, who):
        return st.regs["rax"] == S("SRET_" + who)

    def fn_hidden(self, st):
        return st.regs["rcx"]

    def fnargs(self, st, arch, who):
        # injected: hidden result pointer in rcx, pointer to the transfer in rdx; entry: pointer to transfer in rcx
        p = st.regs["rdx"] if who else st.regs["rcx"]
        return st.mem.load(p, 8), st.mem.load(p.add(8), 8)

    def exitarg_zero(self, st):
        return st.regs["rcx"].const == 0


class Sysv32:
    bits = 32
    cs = ["rbx", "rbp", "rsi", "rdi"]
    xmm_cs = []
    shadow = 0
    x32 = False
    teb = []
    guard = ("gs", 0x14)
    sret = True
    seg = {}
    entry_mod = (16, 12)
    make_ret = "rax"
    entry_room = 8

    def setup(self, st, who, kind, vals):
        for r in R64[:8]:
            st.regs[r] = S("%s_%s" % (who, r))
        for i in range(8):
            st.regs["xmm%d" % i] = S("%s_xmm%d" % (who, i))
        sp = "SP_" + who
        core.ALIGN[sp] = self.entry_mod
        st.regs["rsp"] = S(sp)
        st.mem.store(S(sp), S("RA_" + who), 4)
        st.mxcsr = S("MXCSR_" + who)
        st.fpcw = S("FPCW_" + who)
        st.ssp = None
        if self.guard:
            st.mem.store(S(self.guard[0]).add(self.guard[1]), S("GUARD_" + who), 4)
        a = list(vals)
        if kind != "make" and self.sret:
            a = [S("SRET_" + who)] + a
        for i, v in enumerate(a):
            st.mem.store(S(sp).add(4 + 4 * i), v, 4)
        self.nargs = len(a)

    def resumed_sp(self, who):
        return S("SP_" + who).add(8)          # return address and hidden pointer popped (ret $4)

    def retval(self, st, arch):
        p = S("SRET_A")
        return st.mem.load(p, 4), st.mem.load(p.add(4), 4)

    def fnargs(self, st, arch, who):
        sp = st.regs["rsp"]
        o = 8 if (who and self.sret) else 4
        return st.mem.load(sp.add(o), 4), st.mem.load(sp.add(o + 4), 4)

    def fn_entry_ok(self, st, who):
        ok = st.regs["rsp"] == S("SP_" + who) and st.mem.load(st.regs["rsp"], 4) == S("RA_" + who)
        if self.sret:
            ok = ok and st.mem.load(st.regs["rsp"].add(4), 4) == S("SRET_" + who)
        return ok

    def exitarg_zero(self, st):
        return st.mem.load(st.regs["rsp"].add(4), 4).const == 0


class Darwin32(Sysv32):
    """i386 Darwin / Windows: 8-byte structs are returned in EAX:EDX"""
    sret = False
    guard = None

    def resumed_sp(self, who):
        return S("SP_" + who).add(4)

    def retval(self, st, arch):
        return st.regs["rax"], st.regs["rdx"]


class Ms32(Darwin32):
    teb = [(0x0, "SEH chain"), (0x4, "stack base"), (0x8, "stack limit"), (0x10, "fiber data"), (0xe0c, "deallocation stack")]
    entry_mod = (4, 0)
    seg = {"fs": S("TEB")}

    def setup(self, st, who, kind, vals):
        Darwin32.setup(self, st, who, kind, vals)
        st.mem.store(S("TEB").add(0x18), S("TEB"), 4)
        for off, n in self.teb:
            st.mem.store(S("TEB").add(off), S("%s_%s" % (n.replace(" ", "_"), who)), 4)


def describe(v):
    return repr(v)


def locate(objs, writes):
    return writes


def check_family(R, cfg, abi, srcs, target, flags, tmp, opts):
    """srcs: dict kind->path.  opts: fp(bool), guard(bool), fresh(bool)"""
    objs, byk = {}, {}
    for k, p in srcs.items():
        o = os.path.join(tmp, "%s_%s.o" % (cfg, k))
        if opts.get("masm"):
            assemble_masm(p, opts["masm"], o)
        else:
            assemble(p, target, flags, o)
        ob = disassemble(o, p)
        ob.path = o
        objs[o] = ob
        byk[k] = ob
    arch = X86(abi.bits)
    arch.seg = abi.seg
    arch.ibt = bool(opts.get("ibt"))
    shstk = bool(opts.get("shstk"))
    W = abi.bits // 8
    pre = opts.get("prefix", "")

    def entry(k):
        ob = byk[k]
        n = pre + k + "_fcontext"
        if n not in ob.syms:
            raise AsmError("%s defines no %s" % (ob.src, n))
        return Val(("code", ob.path), ob.syms[n])

    vp = {w: S("VP_" + w) for w in "ABCDE"}

    def call(st, who, kind, to, fn=None):
        vals = {"jump": [to, vp[who]], "ontop": [to, vp[who], fn]}[kind]
        abi.setup(st, who, kind, vals)
        return entry(kind)

    def newstate():
        s = State(arch)
        if shstk:
            s.sh = Mem()
        return s

    def faults(rule, st, src):
        if arch.ibt or shstk:
            R.ob(rule, cfg, not st.faults, "; ".join(st.faults), src)

    if arch.ibt:
        for k in byk:
            ins = byk[k].insns.get(entry(k).off)
            R.ob("%s starts with a landing pad" % k, cfg, ins is not None and ins.mn.startswith("endbr"), "%s_fcontext starts with '%s'" % (k, ins.text if ins else "nothing"), byk[k].src)

    def lastline(st):
        for src, ins in reversed(st.trace):
            return "%s: at '%s' (+0x%x)" % (os.path.basename(src), ins.text.replace("\t", " "), ins.addr)
        return ""

    n_ins = 0
    # ---------- suspend through x, resumed through y
    for x in ("jump", "ontop"):
        # A suspends by switching to an arbitrary suspended context T
        st = newstate()
        pc = call(st, "A", x, S("T"), S("FN_A"))
        a0 = len(st.writes)
        outs = run(arch, st, objs, pc)
        n_ins += sum(len(s.trace) for s, _ in outs)
        for st, ex in outs:
            faults("switch obeys the control-flow enforcement (suspended in %s)" % x, st, byk[x].src)
            if shstk:
                g = st.sh.load(S("SSP_A").add(-8), 8)
                R.ob("suspend leaves a restore token on the shadow stack (%s)" % x, cfg, g == Val(("token", S("SSP_A"))), "%r lies below the suspended shadow stack" % g, byk[x].src)
            # frame writes: everything stored relative to A's stack must lie below its stack pointer
            for (addr, n, ins, ob, sp) in st.writes:
                if addr.base == "SP_A":
                    ok = addr.off + n <= 0
                    R.ob("suspend writes only below the stack pointer", cfg, ok, "%s: '%s' writes %r (%d bytes), above the suspended stack pointer" % (os.path.basename(ob.src), ins.text, addr, n), ob.src)
            if x == "jump":
                R.ob("jump leaves through the target's saved return address", cfg, isinstance(ex.base, tuple) and ex.base[0] == "mem" and ex.base[2].base == "T", "control leaves to %r" % ex, byk[x].src)
                kA, d = None, None
            else:
                R.ob("ontop enters the injected function", cfg, ex == S("FN_A"), "control leaves to %r, expected the function argument" % ex, byk[x].src)
            if st.effects:
                R.ob("switch uses no system call", cfg, False, "%s executes %s" % (byk[x].src, st.effects[0][1].text), byk[x].src)
            else:
                R.ob("switch uses no system call", cfg, True, "", byk[x].src)
            if isinstance(ex.base, tuple) and ex.base[0] == "extern":
                R.ob("switch calls nothing", cfg, False, "%s calls %r" % (byk[x].src, ex), byk[x].src)
            # the delivered handle: find it where the convention puts it
            if x == "jump":
                f, d = opts_ret(abi, st, arch, "T")
            else:
                f, d = abi.fnargs(st, arch, "T") if not opts.get("ms64") else abi.fnargs(st, arch, "T")
            okd = d == vp["A"]
            R.ob("%s delivers the data pointer" % x, cfg, okd, "%s hands over data %r instead of its argument" % (os.path.basename(byk[x].src), d), byk[x].src)
            okf = f.base == "SP_A" and f.off < 0
            R.ob("%s delivers the suspended context" % x, cfg, okf, "%s hands over %r as suspended context" % (os.path.basename(byk[x].src), f), byk[x].src)
            if not okf:
                continue
            kA = f
            for y in ("jump", "ontop"):
                s2 = st.copy()
                s2.writes, s2.trace, s2.effects, s2.faults, s2.path = [], [], [], [], []
                pc = call(s2, "B", y, kA, S("FN_B"))
                for s3, ex2 in run(arch, s2, objs, pc):
                    n_ins += len(s3.trace)
                    tag = "%s->%s" % (x, y)
                    src = byk[y].src
                    what = "suspended in %s_fcontext, resumed by %s_fcontext" % (x, y)
                    faults("switch obeys the control-flow enforcement (%s)" % tag, s3, src)
                    if shstk:
                        want = S("SSP_A").add(8 if y == "jump" else 0)
                        R.ob("shadow stack pointer restored (%s)" % tag, cfg, s3.ssp == want, "%s: shadow stack pointer is %r, expected %r" % (what, s3.ssp, want), src)
                        R.ob("shadow stack of the resumed context intact (%s)" % tag, cfg, s3.sh.load(S("SSP_A"), 8) == S("RA_A"), "%s: return address on the shadow stack is %r" % (what, s3.sh.load(S("SSP_A"), 8)), src)
                        g = s3.sh.load(S("SSP_B").add(-8), 8)
                        R.ob("resumer leaves a restore token on its shadow stack (%s)" % tag, cfg, g == Val(("token", S("SSP_B"))), "%s: %r lies below the suspended shadow stack" % (what, g), src)
                    for r in abi.cs:
                        want = S("A_" + r)
                        got = s3.regs[r]
                        nm = r if abi.bits == 64 else "e" + r[1:]
                        R.ob("callee-saved %s restored (%s)" % (nm, tag), cfg, got == want, "%s: register %s of the resumed context holds %r, not its value at suspension" % (what, nm, got), src)
                    if abi.xmm_cs and opts.get("fp", True):
                        for r in abi.xmm_cs:
                            R.ob("callee-saved %s restored (%s)" % (r, tag), cfg, s3.regs[r] == S("A_" + r), "%s: %s holds %r" % (what, r, s3.regs[r]), src)
                    if opts.get("fp", True):
                        R.ob("MXCSR restored (%s)" % tag, cfg, s3.mxcsr == S("MXCSR_A"), "%s: MXCSR is loaded with %r" % (what, s3.mxcsr), src)
                        R.ob("x87 control word restored (%s)" % tag, cfg, s3.fpcw == S("FPCW_A"), "%s: FPCW is loaded with %r" % (what, s3.fpcw), src)
                    if opts.get("guard"):
                        g = s3.mem.load(S(abi.guard[0]).add(abi.guard[1]), W)
                        R.ob("stack-protector canary restored (%s)" % tag, cfg, g == S("GUARD_A"), "%s: canary is %r" % (what, g), src)
                    for off, n in abi.teb:
                        g = s3.mem.load(S("TEB").add(off), W)
                        R.ob("TEB %s restored (%s)" % (n, tag), cfg, g == S("%s_A" % n.replace(" ", "_")), "%s: TEB %s is %r" % (what, n, g), src)
                    for (addr, n, ins, ob, sp) in s3.writes:
                        if addr.base == "SP_A":
                            # argument slots of A's pending call belong to the callee
                            lim = 0
                            if abi.bits == 32:
                                lim = None
                            ok = addr.off + n <= 0 or (lim is None and W <= addr.off and addr.off + n <= W + 4 * 4 and y == "ontop")
                            R.ob("resume does not overwrite the resumed stack (%s)" % tag, cfg, ok, "%s: '%s' writes %r" % (what, ins.text, addr), ob.src)
                    if y == "jump":
                        R.ob("resumed at its return address (%s)" % tag, cfg, ex2 == S("RA_A"), "%s: continues at %r instead of after the suspending call" % (what, ex2), src)
                        R.ob("stack pointer restored (%s)" % tag, cfg, s3.regs["rsp"] == abi.resumed_sp("A"), "%s: stack pointer is %r, expected %r" % (what, s3.regs["rsp"], abi.resumed_sp("A")), src)
                        f, d = opts_ret(abi, s3, arch, "A")
                        if hasattr(abi, "ret_ptr_ok"):
                            R.ob("hidden result pointer returned (%s)" % tag, cfg, abi.ret_ptr_ok(s3, "A"), "%s: result pointer is %r" % (what, s3.regs["rax"]), src)
                        R.ob("suspended call returns the resumer's data (%s)" % tag, cfg, d == vp["B"], "%s: data is %r" % (what, d), src)
                        R.ob("suspended call returns the resumer's context (%s)" % tag, cfg, f.base == "SP_B" and f.off < 0, "%s: context is %r" % (what, f), src)
                    else:
                        R.ob("injected function entered (%s)" % tag, cfg, ex2 == S("FN_B"), "%s: control goes to %r" % (what, ex2), src)
                        R.ob("injected function returns into the suspended call (%s)" % tag, cfg, abi.fn_entry_ok(s3, "A"), "%s: at entry of the injected function the stack pointer is %r and [sp] is %r; it would not return to the suspended call" % (what, s3.regs["rsp"], s3.mem.load(s3.regs["rsp"], W)), src)
                        if hasattr(abi, "fn_hidden"):
                            R.ob("injected function's result becomes the suspended call's (%s)" % tag, cfg, abi.fn_hidden(s3) == S("SRET_A"), "%s: the injected function would store its result through %r" % (what, abi.fn_hidden(s3)), src)
                        f, d = abi.fnargs(s3, arch, "A")
                        R.ob("injected function gets the resumer's data (%s)" % tag, cfg, d == vp["B"], "%s: data is %r" % (what, d), src)
                        R.ob("injected function gets the resumer's context (%s)" % tag, cfg, f.base == "SP_B" and f.off < 0, "%s: context is %r" % (what, f), src)
    # ---------- fresh context
    if "make" in byk:
        src = byk["make"].src
        st = newstate()
        core.ALIGN.pop("TOP", None)
        abi.setup(st, "M", "make", [S("TOP"), S("SIZE"), S("ENTRY")])
        if shstk:
            # create_context2: the word below the top holds the new shadow stack pointer, below which lies a token
            st.mem.store(S("TOP").add(-8), S("SSP_N"), 8)
            st.sh.store(S("SSP_N").add(-8), Val(("token", S("SSP_N"))), 8)
        for st, ex in run(arch, st, objs, entry("make")):
            n_ins += len(st.trace)
            if isinstance(ex.base, tuple) and ex.base[0] == "halt":
                continue
            k = st.regs[abi.make_ret]
            faults("make obeys the control-flow enforcement", st, src)
            if shstk:
                R.ob("make restores its caller's shadow stack", cfg, st.ssp == S("SSP_M").add(8), "shadow stack pointer is %r" % st.ssp, src)
            R.ob("make returns to its caller", cfg, ex == S("RA_M") and st.regs["rsp"] == S("SP_M").add(W), "make_fcontext leaves to %r with stack pointer %r" % (ex, st.regs["rsp"]), src)
            for r in abi.cs:
                R.ob("make preserves callee-saved %s" % r, cfg, st.regs[r] == S("M_" + r), "%s holds %r on return from make_fcontext" % (r, st.regs[r]), src)
            lo, top = top_offset(k)
            R.ob("make returns a context inside the stack", cfg, top is not None and top < 0, "returned context is %r" % k, src)
            if top is None:
                continue
            for (addr, n, ins, ob, sp) in st.writes:
                b, o = top_offset(addr)
                if o is not None:
                    # o is relative to the aligned-down top, which is <= sp
                    R.ob("make writes only inside the new stack", cfg, o + n <= 0 and o >= -1024, "'%s' writes %r, outside [sp-size, sp)" % (ins.text, addr), src)
                elif addr.base == "SP_M":
                    ok = addr.off + n <= 0
                    R.ob("make writes only inside the new stack", cfg, ok, "'%s' writes %r (%d bytes): the caller's frame" % (ins.text, addr, n), src)
                else:
                    R.ob("make writes only inside the new stack", cfg, False, "'%s' writes %r" % (ins.text, addr), src)
            s2 = st.copy()
            s2.writes, s2.trace, s2.effects, s2.faults = [], [], [], []
            made = st.path
            pc = call(s2, "B", "jump", k)
            for s3, ex2 in run(arch, s2, objs, pc):
                n_ins += len(s3.trace)
                faults("first jump obeys the control-flow enforcement", s3, src)
                if shstk:
                    R.ob("fresh context runs on its own shadow stack", cfg, s3.ssp.base == "SSP_N" and s3.ssp.off < 0, "shadow stack pointer is %r" % s3.ssp, src)
                    g = s3.sh.load(S("SSP_B").add(-8), 8)
                    R.ob("first jump leaves a restore token on the jumper's shadow stack", cfg, g == Val(("token", S("SSP_B"))), "%r lies below the suspended shadow stack" % g, src)
                R.ob("first jump enters the context function", cfg, ex2 == S("ENTRY"), "the first jump to a fresh context ends at %r, not at the context function" % ex2, src)
                sp = s3.regs["rsp"]
                b, o = top_offset(sp)
                m = alignment(sp)
                wm, wr = abi.entry_mod
                R.ob("context function entered with aligned stack", cfg, o is not None and m is not None and m[0] % wm == 0 and (m[1] - wr) % wm == 0, "stack pointer at entry is %r (alignment %r), the ABI wants sp mod %d == %d" % (sp, m, wm, wr), src)
                room = W + abi.entry_room
                R.ob("entry frame inside the new stack", cfg, o is not None and o + room <= 0, "stack pointer at entry is %r; %d bytes above it belong to the entry frame" % (sp, room), src)
                f, d = abi.fnargs(s3, arch, None)
                R.ob("context function gets the jumper's context", cfg, f.base == "SP_B" and f.off < 0, "context argument is %r" % f, src)
                R.ob("context function gets the jumper's data", cfg, d == vp["B"], "data argument is %r" % d, src)
                if opts.get("fp", True):
                    R.ob("fresh context has creator's MXCSR", cfg, s3.mxcsr == S("MXCSR_M"), "MXCSR is %r" % s3.mxcsr, src)
                    R.ob("fresh context has creator's x87 control word", cfg, s3.fpcw == S("FPCW_M"), "FPCW is %r" % s3.fpcw, src)
                if opts.get("guard"):
                    g = s3.mem.load(S(abi.guard[0]).add(abi.guard[1]), W)
                    R.ob("fresh context has a valid canary", cfg, g == S("GUARD_M"), "canary is %r" % g, src)
                if abi.teb:
                    wants = {"stack base": S("TOP"), "stack limit": None, "deallocation stack": None}
                    for off, n in abi.teb:
                        g = s3.mem.load(S("TEB").add(off), W)
                        if n == "fiber data":
                            R.ob("TEB fiber data set for fresh context", cfg, g.const == 0 or g == S("fiber_data_M"), "TEB fiber data is %r" % g, src)
                        if n == "SEH chain":
                            seh_chain(R, cfg, s3, g, made, src)
                        R.ob("TEB %s of a fresh context is initialised" % n, cfg, not (isinstance(g.base, tuple) and g.base[0] in ("mem", "bytes")), "TEB %s is loaded from stack memory make_fcontext never wrote (%r)" % (n, g), src)
                        if n == "stack base":
                            R.ob("TEB stack base set for fresh context", cfg, g == S("TOP"), "TEB stack base is %r" % g, src)
                        if n in ("stack limit", "deallocation stack"):
                            ok = g == Val(("add", S("TOP"), Val(("neg", S("SIZE"))))) or g == Val(("add", Val(("neg", S("SIZE"))), S("TOP"))) or g == Val(("sub", S("TOP"), S("SIZE")))
                            R.ob("TEB %s set for fresh context" % n, cfg, ok, "TEB %s is %r" % (n, g), src)
                for (addr, n, ins, ob, sp_) in s3.writes:
                    b, o = top_offset(addr)
                    if o is not None:
                        R.ob("entry writes only inside the new stack", cfg, o + n <= 0 and o >= -1024, "'%s' writes %r" % (ins.text, addr), ob.src)
                    else:
                        R.ob("first jump writes through valid pointers only", cfg, addr.base in ("TEB", "fs", "gs") or addr.base == "SP_B", "'%s' writes through %r, which make_fcontext never set or set wrong" % (ins.text, addr), ob.src)
                # the context function returns
                s4 = s3.copy()
                ra = s4.mem.load(s4.regs["rsp"], W)
                s4.regs["rsp"] = s4.regs["rsp"].add(W)
                for r in R64 if abi.bits == 64 else R64[:8]:
                    if r not in abi.cs and r != "rsp":
                        s4.regs[r] = fresh(r)
                # it may have used everything below its stack pointer, and its argument area
                cells = s4.mem.cells.get(s4.regs["rsp"].base, {})
                for off in list(cells):
                    if off < s4.regs["rsp"].off + abi.entry_room:
                        cells[off] = (S("clobbered"), 0, 1)
                s4.trace, s4.faults = [], []
                arch.shpop(s4, ra, "the context function")
                for s5, ex3 in run(arch, s4, objs, ra):
                    n_ins += len(s5.trace)
                    if isinstance(ex3.base, tuple) and ex3.base[0] == "halt":
                        R.ob("returning from the context function ends the process", cfg, False, "control reaches a halt without calling _exit", src)
                        continue
                    nm = ex3.base[1] if isinstance(ex3.base, tuple) and ex3.base[0] == "extern" else None
                    R.ob("returning from the context function ends the process", cfg, nm is not None and nm.lstrip("_") == "exit" and nm.startswith("_"), "after the context function returns control goes to %r, not to _exit" % ex3, src)
                    faults("the end of the context function obeys the control-flow enforcement", s5, src)
                    if opts.get("got"):
                        b = s5.regs["rbx"]
                        R.ob("PLT call finds the global offset table in ebx", cfg, "_GLOBAL_OFFSET_TABLE_" in repr(b) and "code" in repr(b), "ebx holds %r" % b, src)
                    R.ob("the process exits with status zero", cfg, abi.exitarg_zero(s5), "exit status argument is not zero", src)
                    m = alignment(s5.regs["rsp"])
                    ok = m is not None and m[0] % wm == 0 and (m[1] - wr) % wm == 0
                    if abi.bits == 64:
                        R.ob("_exit called with aligned stack", cfg, ok, "stack pointer %r" % s5.regs["rsp"], src)
    return n_ins, objs


def seh_chain(R, cfg, st, rec, path, src):
    """the handler chain of a fresh context: one record in the new stack, closed, with the
    handler of the last record of the creator's chain"""
    _, o = top_offset(rec)
    R.ob("SEH chain of a fresh context lies in the new stack", cfg, o is not None and o + 8 <= 0, "the chain starts at %r" % rec, src)
    if o is None:
        return
    nxt, h = st.mem.load(rec, 4), st.mem.load(rec.add(4), 4)
    R.ob("SEH chain of a fresh context is closed", cfg, nxt.const is not None and nxt.const & 0xffffffff == 0xffffffff, "the next-record field is %r" % nxt, src)
    # handler field of a record q of the creator's chain whose next field was found to be -1
    ok = False
    if isinstance(h.base, tuple) and h.base[0] == "mem" and h.off == 0:
        q = h.base[2].add(-4)
        p = q
        while isinstance(p.base, tuple) and p.base[0] == "mem" and p.off == 0:
            p = p.base[2]
        last = Val(("mem", 4, q), 1)
        ok = p == S("SEH_chain_M") and (last, True) in path
    R.ob("SEH handler of a fresh context is the last of the creator's chain", cfg, ok, "the handler field is %r" % h, src)


def opts_ret(abi, st, arch, who):
    if isinstance(abi, Sysv32) and abi.sret:
        if who == "T":
            # hidden pointer was read from T's frame: the pair was stored through it
            for (addr, n, ins, ob, sp) in st.writes:
                if isinstance(addr.base, tuple) and addr.base[0] == "mem":
                    return st.mem.load(Val(addr.base), 4), st.mem.load(Val(addr.base, 4), 4)
            return Val("none"), Val("none")
        p = S("SRET_" + who)
        return st.mem.load(p, 4), st.mem.load(p.add(4), 4)
    return abi.retval(st, arch)


def top_offset(v):
    """offset relative to the (aligned-down) stack top, or (.., None)"""
    if v.base == "TOP":
        return v.base, v.off
    b = v.base
    if isinstance(b, tuple) and b[0] == "align":
        inner = b[2]
        i, o = top_offset(inner)
        if o is not None and o <= 0:
            return b, v.off + (0 if o == 0 else o - 0)
    return b, None
