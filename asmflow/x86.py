"""x86 / x86_64 transfer functions (AT&T syntax as printed by llvm-objdump)."""
import re
from core import *

R64 = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp"] + ["r%d" % i for i in range(8, 16)]
SUB = {}
for r in ("a", "b", "c", "d"):
    SUB["r%sx" % r] = ("r%sx" % r, 8, 0)
    SUB["e%sx" % r] = ("r%sx" % r, 4, 0)
    SUB["%sx" % r] = ("r%sx" % r, 2, 0)
    SUB["%sl" % r] = ("r%sx" % r, 1, 0)
for r in ("si", "di", "bp", "sp"):
    SUB["r" + r] = ("r" + r, 8, 0)
    SUB["e" + r] = ("r" + r, 4, 0)
    SUB[r] = ("r" + r, 2, 0)
    SUB[r + "l"] = ("r" + r, 1, 0)
for i in range(8, 16):
    SUB["r%d" % i] = ("r%d" % i, 8, 0)
    SUB["r%dd" % i] = ("r%d" % i, 4, 0)
    SUB["r%dw" % i] = ("r%d" % i, 2, 0)
    SUB["r%db" % i] = ("r%d" % i, 1, 0)

_memop = re.compile(r"^(?:%(\w\w):)?(-?0x[0-9a-f]+|-?\d+)?(?:\(([^)]*)\))?$")


class Halt(Exception):
    pass


class State:
    """abstract machine state"""

    def __init__(self, m):
        self.m = m
        self.regs = {}
        self.mem = Mem()
        self.mxcsr = None
        self.fpcw = None
        self.ssp = None
        self.sh = None       # shadow stack contents, when modelled
        self.zf = None       # value whose being zero the flags describe
        self.path = []       # ( value, is zero ) decided by branches taken
        self.faults = []     # violations of the machine's own rules (shadow stack, landing pads)
        self.writes = []     # (addr Val, size, insn, objname)
        self.reads = []
        self.trace = []
        self.effects = []
        self.forks = {}

    def copy(self):
        s = State(self.m)
        s.regs = dict(self.regs)
        s.mem = Mem(self.mem)
        s.mxcsr, s.fpcw, s.ssp = self.mxcsr, self.fpcw, self.ssp
        s.sh = Mem(self.sh) if self.sh is not None else None
        s.zf, s.path, s.faults = self.zf, list(self.path), list(self.faults)
        s.writes = list(self.writes)
        s.reads = list(self.reads)
        s.trace = list(self.trace)
        s.effects = list(self.effects)
        s.forks = dict(self.forks)
        return s


class X86:
    little = True

    def __init__(self, bits):
        self.bits = bits
        self.w = bits // 8
        self.mask = (1 << bits) - 1
        self.seg = {}           # segment register -> its base, where the analysis gives it a name
        self.ibt = False        # indirect branches need a landing pad

    def sp(self, st):
        return st.regs["rsp"]

    # ---- operands
    def ea(self, st, op, ins, obj):
        m = _memop.match(op)
        if not m:
            raise AsmError("%s: cannot parse operand %r in '%s'" % (obj.src, op, ins.text))
        seg, disp, inner = m.groups()
        a = C(int(disp, 0) if disp else 0)
        if inner is not None:
            p = [x.strip() for x in inner.split(",")]
            if p[0]:
                r = p[0].lstrip("%")
                if r == "rip":
                    a = Val(("code", obj.path), ins.next + a.off) if a.base is None else None
                    if ins.reloc:
                        a = Val(("extern", ins.reloc[1]))
                elif r not in ("eiz", "riz"):
                    a = add(self.get(st, r), a)
            if len(p) > 1 and p[1]:
                r = p[1].lstrip("%")
                if r not in ("eiz", "riz"):
                    iv = self.get(st, r)
                    sc = int(p[2]) if len(p) > 2 and p[2] else 1
                    if iv.const is not None:
                        a = a.add(iv.const * sc)
                    else:
                        a = add(a, iv if sc == 1 else term("mul", iv, C(sc)))
        if seg in ("fs", "gs"):
            a = add(self.seg.get(seg) or S(seg), a)
        return a

    def get(self, st, r):
        if r in SUB:
            n, w, _ = SUB[r]
            v = st.regs[n]
            if w == self.w:
                return v
            return self.trunc(v, w)
        if r.startswith("xmm"):
            return st.regs.setdefault(r, S(r + "_"))
        raise AsmError("unknown register %" + r)

    def trunc(self, v, w):
        if v.const is not None:
            return C(v.const & ((1 << (8 * w)) - 1))
        if w >= self.w:
            return v
        return Val(("lo", w, v))

    def put(self, st, r, v):
        if r in SUB:
            n, w, _ = SUB[r]
            if w == self.w:
                if v.base is None:
                    v = C(v.off & self.mask)
                st.regs[n] = v
            elif w == 4:
                st.regs[n] = v if v.const is not None else Val(("zext", v))
                if isinstance(v.base, tuple) and v.base[0] == "lo" and v.off == 0:
                    st.regs[n] = Val(("zext", v.base[2]))
            else:
                st.regs[n] = fresh("partial_" + n)
            return
        if r.startswith("xmm"):
            st.regs[r] = v
            return
        raise AsmError("unknown register %" + r)

    def load(self, st, a, n, ins, obj):
        st.reads.append((a, n, ins, obj))
        return st.mem.load(a, n)

    def store(self, st, a, v, n, ins, obj):
        st.writes.append((a, n, ins, obj, st.regs["rsp"]))
        st.mem.store(a, v, n)

    def rd(self, st, op, n, ins, obj):
        if op.startswith("$"):
            v = int(op[1:], 0)
            if ins.reloc:
                return Val(("extern", ins.reloc[1]), v)
            return C(v)
        if op.startswith("%") and ":" not in op:
            return self.get(st, op[1:])
        return self.load(st, self.ea(st, op, ins, obj), n, ins, obj)

    def wr(self, st, op, v, n, ins, obj):
        if op.startswith("%") and ":" not in op:
            return self.put(st, op[1:], v)
        self.store(st, self.ea(st, op, ins, obj), v, n, ins, obj)

    def push(self, st, v, ins, obj):
        st.regs["rsp"] = st.regs["rsp"].add(-self.w)
        self.store(st, st.regs["rsp"], v, self.w, ins, obj)

    def pop(self, st, ins, obj):
        v = self.load(st, st.regs["rsp"], self.w, ins, obj)
        st.regs["rsp"] = st.regs["rsp"].add(self.w)
        return v

    def width(self, mn, ops):
        for o in ops:
            if o.startswith("%") and ":" not in o and o[1:] in SUB:
                w = SUB[o[1:]][1]
                return w
        return {"b": 1, "w": 2, "l": 4, "q": 8}.get(mn[-1], self.w)

    # ---- one instruction.  returns None (fall through) or ("goto", Val) / list of alternatives
    def step(self, st, ins, obj):
        mn = ins.mn
        ops = split_ops(ins.ops)
        st.trace.append((obj.src, ins))
        if mn in ("lock", "rep", "notrack", "bnd", "data16", "cs", "ds"):
            sub_ = Insn(ins.addr, *(ins.ops.split(None, 1) + [""])[:2], ins.text)
            sub_.next, sub_.reloc = ins.next, ins.reloc
            return self.step(st, sub_, obj)
        if mn in ("endbr64", "endbr32", "nop", "nopw", "nopl", "hlt", "cld", "pause", "int3", "ud2", "fwait", "wait"):
            if mn in ("hlt", "int3", "ud2"):
                raise Halt()
            return None
        b = re.match(r"^(movaps|movups|movdqa|movdqu|movapd|movupd|vmovaps|vmovups|vmovdqu|vmovdqa)$", mn)
        if b:
            v = self.rd(st, ops[0], 16, ins, obj)
            self.wr(st, ops[1], v, 16, ins, obj)
            return None
        if mn in ("stmxcsr", "vstmxcsr"):
            self.store(st, self.ea(st, ops[0], ins, obj), st.mxcsr, 4, ins, obj)
            return None
        if mn in ("ldmxcsr", "vldmxcsr"):
            st.mxcsr = self.load(st, self.ea(st, ops[0], ins, obj), 4, ins, obj)
            return None
        if mn in ("fnstcw", "fstcw"):
            self.store(st, self.ea(st, ops[0], ins, obj), st.fpcw, 2, ins, obj)
            return None
        if mn == "fldcw":
            st.fpcw = self.load(st, self.ea(st, ops[0], ins, obj), 2, ins, obj)
            return None
        if mn.startswith("rdssp"):
            self.put(st, ops[0][1:], st.ssp)
            return None
        if mn == "rstorssp":
            a = self.ea(st, ops[0], ins, obj)
            if st.sh is not None:
                tok = st.sh.load(a, 8)
                unknown = isinstance(tok.base, tuple) and tok.base[0] == "mem" and isinstance(a.base, tuple) and a.base[0] == "mem" and a.base[2].base == "T"
                if not unknown and tok != Val(("token", a.add(8))):
                    st.faults.append("'%s' finds no restore token at %r of the shadow stack (%r)" % (ins.text, a, tok))
                st.sh.store(a, Val(("prevssp", st.ssp)), 8)
            st.ssp = a
            return None
        if mn == "saveprevssp":
            if st.sh is not None:
                p = st.sh.load(st.ssp, 8)
                if not (isinstance(p.base, tuple) and p.base[0] == "prevssp"):
                    st.faults.append("'%s' finds no previous-SSP token at %r (%r)" % (ins.text, st.ssp, p))
                else:
                    old = p.base[1]
                    st.sh.store(old.add(-8), Val(("token", old)), 8)
                st.ssp = st.ssp.add(8)
            return None
        if mn.startswith("incssp"):
            if st.sh is not None:
                n = self.get(st, ops[0][1:])
                if n.const is None:
                    st.faults.append("'%s' moves the shadow stack pointer by an unknown amount (%r)" % (ins.text, n))
                else:
                    st.ssp = st.ssp.add(8 * (n.const & 0xff))
            return None
        if mn.startswith("lea"):
            self.put(st, ops[1][1:], self.ea(st, ops[0], ins, obj))
            return None
        if mn in ("push", "pushq", "pushl"):
            self.push(st, self.rd(st, ops[0], self.w, ins, obj), ins, obj)
            return None
        if mn in ("pop", "popq", "popl"):
            v = self.pop(st, ins, obj)
            self.wr(st, ops[0], v, self.w, ins, obj)
            return None
        if mn in ("ret", "retq", "retl"):
            v = self.pop(st, ins, obj)
            if ops:
                st.regs["rsp"] = st.regs["rsp"].add(int(ops[0][1:], 0))
            self.shpop(st, v, "'%s'" % ins.text)
            return ("goto", v)
        if mn in ("jmp", "jmpq", "jmpl"):
            if ops[0].startswith("*"):
                return ("igoto", self.rd(st, ops[0][1:], self.w, ins, obj))
            return ("goto", self.target(ops[0], ins, obj))
        if mn in ("call", "callq", "calll"):
            t = self.rd(st, ops[0][1:], self.w, ins, obj) if ops[0].startswith("*") else self.target(ops[0], ins, obj)
            self.push(st, Val(("code", obj.path), ins.next), ins, obj)
            if st.sh is not None:
                st.ssp = st.ssp.add(-8)
                st.sh.store(st.ssp, Val(("code", obj.path), ins.next), 8)
            return ("igoto" if ops[0].startswith("*") else "goto", t)
        if re.match(r"^(leave|leaveq|leavel)$", mn):
            st.regs["rsp"] = st.regs["rbp"]
            st.regs["rbp"] = self.pop(st, ins, obj)
            return None
        if re.match(r"^j[a-z]+$", mn):
            return ("fork", [self.target(ops[0], ins, obj), Val(("code", obj.path), ins.next)], {"jz": True, "je": True, "jnz": False, "jne": False}.get(mn))
        if re.match(r"^(cmp|test)[bwlq]?$", mn):
            w = self.width(mn, ops)
            a, b = self.rd(st, ops[-1], w, ins, obj), self.rd(st, ops[0], w, ins, obj)
            st.zf = sub(a, b, (1 << (8 * w)) - 1) if mn.startswith("cmp") else (a if ops[0] == ops[1] else fresh("flag"))
            return None
        if mn in ("xchgq", "xchgl", "xchg"):
            w = self.width(mn, ops)
            a = self.rd(st, ops[0], w, ins, obj)
            c = self.rd(st, ops[1], w, ins, obj)
            self.wr(st, ops[0], c, w, ins, obj)
            self.wr(st, ops[1], a, w, ins, obj)
            return None
        m = re.match(r"^(mov|movabs)([bwlq])?$", mn)
        if m and not mn.startswith("movs") and len(ops) == 2:
            w = self.width(mn, ops)
            if any(o.startswith("%xmm") for o in ops):
                w = 8 if mn.endswith("q") else 4
            v = self.rd(st, ops[0], w, ins, obj)
            self.wr(st, ops[1], v, w, ins, obj)
            return None
        m = re.match(r"^(add|sub|and|or|xor|shl|sal|shr|sar|inc|dec|neg|not)[bwlq]?$", mn)
        if m:
            op = m.group(1)
            w = self.width(mn, ops)
            dst = ops[-1]
            if op in ("inc", "dec"):
                a = self.rd(st, dst, w, ins, obj)
                st.zf = a.add(1 if op == "inc" else -1)
                self.wr(st, dst, st.zf, w, ins, obj)
                return None
            if op in ("neg", "not") or len(ops) == 1:
                a = self.rd(st, dst, w, ins, obj)
                r = C(-a.const & self.mask) if op == "neg" and a.const is not None else term(op, a)
                st.zf = r if op == "neg" else st.zf
                self.wr(st, dst, r, w, ins, obj)
                return None
            a = self.rd(st, dst, w, ins, obj)
            s = self.rd(st, ops[0], w, ins, obj)
            mask = (1 << (8 * w)) - 1
            if op == "add":
                r = add(a, s, mask)
            elif op == "sub":
                r = sub(a, s, mask)
            elif op == "and":
                r = and_(a, s, 8 * w)
            elif op == "xor":
                r = C(0) if ops[0] == ops[1] else (C(a.const ^ s.const) if a.const is not None and s.const is not None else term("xor", a, s))
            elif op == "or":
                if a.const == 0:
                    r = s
                elif s.const == 0:
                    r = a
                else:
                    r = term("or", a, s)
            elif op in ("shl", "sal"):
                r = C((a.const << s.const) & mask) if a.const is not None and s.const is not None else term("shl", a, s)
            else:
                r = term(op, a, s)
            st.zf = r
            self.wr(st, dst, r, w, ins, obj)
            return None
        # anything else: the last operand becomes unknown (sound for plain ALU code)
        if mn in ("syscall", "sysenter", "int", "cpuid", "xsave", "xrstor", "fxsave", "fxrstor", "emms", "vzeroupper", "fninit", "finit"):
            st.effects.append((mn, ins, obj))
            if mn in ("fninit", "finit"):
                st.fpcw = fresh("fninit")
            if mn == "fxrstor":
                st.fpcw = fresh(mn)
                st.mxcsr = fresh(mn)
            if mn in ("syscall", "cpuid"):
                for r in ("rax", "rcx", "r11", "rbx" if mn == "cpuid" else "rax", "rdx" if mn == "cpuid" else "rax"):
                    st.regs[r] = fresh(r)
            return None
        if ops and ops[-1].startswith("%") and (ops[-1][1:] in SUB or ops[-1].startswith("%xmm")):
            self.put(st, ops[-1][1:], fresh("unk_" + mn))
            return None
        if ops:
            a = self.ea(st, ops[-1], ins, obj)
            self.store(st, a, fresh("unk_" + mn), self.width(mn, ops), ins, obj)
            return None
        raise AsmError("%s: instruction '%s' is not understood" % (obj.src, ins.text))

    def shpop(self, st, v, what):
        if st.sh is None:
            return
        t = st.sh.load(st.ssp, 8)
        if t != v:
            st.faults.append("%s returns to %r, the shadow stack says %r" % (what, v, t))
        st.ssp = st.ssp.add(8)

    def target(self, op, ins, obj):
        if ins.reloc and not re.match(r"^\.", ins.reloc[1]):
            return Val(("extern", re.sub(r"[-+]0x[0-9a-f]+$|@PLT$", "", ins.reloc[1])))
        m = re.match(r"^(0x[0-9a-f]+)", op)
        if not m:
            raise AsmError("%s: branch target of '%s'" % (obj.src, ins.text))
        return Val(("code", obj.path), int(m.group(1), 16))


def resolve(pc, objs):
    """a relocation against a symbol of the same object set is a code address"""
    if isinstance(pc.base, tuple) and pc.base[0] == "extern":
        n = pc.base[1]
        m = re.match(r"^(.*?)([-+]0x[0-9a-f]+)?$", n)
        for p, o in objs.items():
            if m.group(1) in o.syms and (m.group(1) not in ("jump_fcontext",)):
                return Val(("code", p), o.syms[m.group(1)] + pc.off)
    return pc


def run(arch, st, objs, pc, limit=400):
    """propagate along the control flow until it leaves the known code.
    yields (state, exit Val)"""
    work = [(st, pc, 0)]
    out = []
    seen_forks = 0
    while work:
        st, pc, n = work.pop()
        while True:
            pc = resolve(pc, objs)
            if not (isinstance(pc.base, tuple) and pc.base[0] == "code"):
                out.append((st, pc))
                break
            obj = objs[pc.base[1]]
            ins = obj.insns.get(pc.off)
            if ins is None:
                out.append((st, pc))
                break
            n += 1
            if n > limit:
                raise AsmError("%s: control flow does not leave the routine" % obj.src)
            if ins.next is None:
                ins.next = -1
            try:
                r = arch.step(st, ins, obj)
            except Halt:
                out.append((st, Val(("halt", obj.path), ins.addr)))
                break
            if r is None:
                pc = Val(("code", obj.path), ins.next)
                continue
            if r[0] in ("goto", "igoto"):
                pc = resolve(r[1], objs)
                if r[0] == "igoto" and arch.ibt and isinstance(pc.base, tuple) and pc.base[0] == "code":
                    tgt = objs[pc.base[1]].insns.get(pc.off)
                    if tgt is not None and not tgt.mn.startswith("endbr"):
                        st.faults.append("'%s' branches to '%s', which is no landing pad (endbr)" % (ins.text, tgt.text))
                continue
            if r[0] == "fork":
                seen_forks += 1
                if seen_forks > 400:
                    raise AsmError("%s: too many branches" % obj.src)
                known = [z for v, z in st.path if v == st.zf] if r[2] is not None and st.zf is not None else []
                if known:
                    # decided before: the same way again, unless that is a loop without progress
                    key = (ins.addr, st.zf)
                    st.forks[key] = st.forks.get(key, 0) + 1
                    if st.forks[key] > 3:
                        out.append((st, Val(("endless loop", obj.src), ins.addr)))
                        break
                    pc = r[1][0] if known[0] == r[2] else r[1][1]
                    continue
                st.forks[ins.addr] = st.forks.get(ins.addr, 0) + 1
                if st.forks[ins.addr] > 2:
                    break       # a loop: two rounds cover every transfer function in it
                for t in r[1][1:]:
                    s2 = st.copy()
                    if r[2] is not None and st.zf is not None:
                        s2.path.append((st.zf, not r[2]))
                    work.append((s2, t, n))
                if r[2] is not None and st.zf is not None:
                    st.path.append((st.zf, r[2]))
                pc = r[1][0]
                continue
    return out
