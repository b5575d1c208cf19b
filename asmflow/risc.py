"""Transfer functions for the non-x86 assembler switch routines.

Same discipline as x86.py: registers hold symbols, instructions are transfer
functions over (base, offset) values, nothing is executed.  One class per
instruction set; a mnemonic without a transfer function stops the analysis.
"""
import re
from core import *
import core


class RState:
    def __init__(self, m):
        self.m = m
        self.regs = {}
        self.mem = Mem()
        self.writes = []
        self.trace = []
        self.effects = []
        self.forks = {}
        self.zero = {}          # Val -> bool, branch refinements
        self.cmp = None
        self.wins = []          # sparc: register windows still in the register file
        self.pending = None     # delay slot target

    def copy(self):
        s = RState(self.m)
        s.regs = dict(self.regs)
        s.mem = Mem(self.mem)
        s.writes = list(self.writes)
        s.trace = list(self.trace)
        s.effects = list(self.effects)
        s.forks = dict(self.forks)
        s.zero = dict(self.zero)
        s.cmp = self.cmp
        s.wins = list(self.wins)
        s.pending = self.pending
        return s


def num(s):
    s = s.strip().lstrip("#")
    return int(s, 0)


class Risc:
    bits = 64
    spname = "sp"
    little = True
    delay = False

    def __init__(self):
        self.w = self.bits // 8
        self.mask = (1 << self.bits) - 1

    # ---- registers
    def norm(self, r):
        return r

    def get(self, st, r):
        r = self.norm(r)
        if r in self.zeros:
            return C(0)
        if r not in st.regs:
            raise AsmError("unknown register %s" % r)
        return st.regs[r]

    zeros = ()

    def put(self, st, r, v):
        r = self.norm(r)
        if r in self.zeros:
            return
        if r not in st.regs:
            raise AsmError("unknown register %s" % r)
        if v.base is None:
            v = C(v.off & self.mask)
        st.regs[r] = v

    # ---- memory
    def store(self, st, a, v, n, ins, obj):
        st.writes.append((a, n, ins, obj, st.regs.get(self.spname)))
        st.mem.store(a, v, n)

    def load(self, st, a, n):
        return st.mem.load(a, n, self.little)

    def addi(self, v, n):
        if v.base is None:
            return C((v.off + n) & self.mask)
        return v.add(n)

    def here(self, obj, off):
        return Val(("code", obj.path), off)

    def target(self, ins, obj):
        """branch target operand"""
        if ins.reloc:
            return self.relsym(ins, obj)
        m = re.search(r"(?:^|[\s,])(?:0x)?([0-9a-f]+)(?:\s+<[^>]*>)?\s*$", ins.ops)
        if not m:
            raise AsmError("%s: no target in '%s'" % (obj.src, ins.text))
        return self.here(obj, int(m.group(1), 16))

    def relsym(self, ins, obj):
        n = ins.reloc[1]
        m = re.match(r"^(\S*?)([-+]0x[0-9a-f]+)?$", n)
        s, o = m.group(1), int(m.group(2) or "0", 16)
        if s in obj.syms:
            return self.here(obj, obj.syms[s] + self.reladj(ins, o))
        if s in (".text", "__text"):
            return self.here(obj, self.reladj(ins, o))
        return Val(("extern", s))

    def reladj(self, ins, o):
        return o

    def iszero(self, st, v):
        """True / False / None"""
        if v is None:           # branch on a flag nothing set
            return None
        if v.const is not None:
            return (v.const & self.mask) == 0
        if v in st.zero:
            return st.zero[v]
        if isinstance(v.base, str) and (v.base.startswith("SRET_") or v.base.startswith("SP_") or v.base.startswith("FN_") or v.base == "TOP"):
            return False
        if isinstance(v.base, tuple) and v.base[0] == "align":
            return False
        return None

    def branch_zero(self, st, v, taken, fall, when_zero, ins):
        z = self.iszero(st, v)
        if z is not None:
            return ("goto", taken if z == when_zero else fall)
        return ("split", v if v is not None else fresh("flag"), taken if when_zero else fall, fall if when_zero else taken)

    def bad(self, ins, obj):
        raise AsmError("%s: no transfer function for '%s'" % (obj.src, ins.text))

    def nxt(self, ins, obj):
        return self.here(obj, ins.next)


# --------------------------------------------------------------- AArch64
class AArch64(Risc):
    zeros = ("xzr", "wzr")

    def norm(self, r):
        return {"fp": "x29", "lr": "x30"}.get(r, r)

    _mem = re.compile(r"^\[(\w+)(?:,\s*#(-?\w+))?\](!)?$")

    def ea(self, st, ops, ins, obj):
        """address of the last operands; returns value"""
        if len(ops) == 2 and not ops[1].startswith("["):      # post-index
            m = self._mem.match(ops[0])
            r = m.group(1)
            a = self.get(st, r)
            self.put(st, r, self.addi(a, num(ops[1])))
            return a
        m = self._mem.match(ops[0]) if len(ops) == 1 else None
        if not m:
            self.bad(ins, obj)
        r, d, wb = m.groups()
        a = self.addi(self.get(st, r), int(d, 0) if d else 0)
        if wb:
            self.put(st, r, a)
        return a

    def step(self, st, ins, obj):
        st.trace.append((obj.src, ins))
        mn, ops = ins.mn, split_ops(ins.ops)
        if mn in ("nop", "hint", "bti", "paciasp", "autiasp", "pacibsp", "autibsp"):
            if mn.startswith(("pac", "aut")):
                self.bad(ins, obj)
            return None
        if mn in ("add", "sub") and len(ops) >= 3:
            if len(ops) > 3:
                self.bad(ins, obj)
            a = self.get(st, ops[1])
            if ops[2].startswith("#"):
                n = num(ops[2])
                self.put(st, ops[0], self.addi(a, n if mn == "add" else -n))
            else:
                b = self.get(st, ops[2])
                self.put(st, ops[0], add(a, b) if mn == "add" else sub(a, b))
            return None
        if mn == "and":
            b = C(num(ops[2]) & self.mask) if ops[2].startswith("#") else self.get(st, ops[2])
            self.put(st, ops[0], and_(self.get(st, ops[1]), b))
            return None
        if mn == "mov":
            self.put(st, ops[0], C(num(ops[1])) if ops[1].startswith("#") else self.get(st, ops[1]))
            return None
        if mn in ("str", "stp", "stur"):
            n = 2 if mn == "stp" else 1
            vs = [self.get(st, o) for o in ops[:n]]
            sizes = [self.size(o) for o in ops[:n]]
            a = self.ea(st, ops[n:], ins, obj)
            for v, s in zip(vs, sizes):
                self.store(st, a, v, s, ins, obj)
                a = self.addi(a, s)
            return None
        if mn in ("ldr", "ldp", "ldur"):
            n = 2 if mn == "ldp" else 1
            a = self.ea(st, ops[n:], ins, obj)
            vs = []
            for o in ops[:n]:
                s = self.size(o)
                vs.append(self.load(st, a, s))
                a = self.addi(a, s)
            for o, v in zip(ops[:n], vs):
                self.put(st, o, v)
            return None
        if mn == "adr":
            if ins.reloc:
                self.put(st, ops[0], self.relsym(ins, obj))
            else:
                self.put(st, ops[0], self.here(obj, int(ops[1].split()[0], 16)))
            return None
        if mn == "ret":
            return ("goto", self.get(st, ops[0] if ops else "x30"))
        if mn == "br":
            return ("goto", self.get(st, ops[0]))
        if mn == "b":
            return ("goto", self.target(ins, obj))
        if mn in ("bl", "blr"):
            t = self.target(ins, obj) if mn == "bl" else self.get(st, ops[0])
            st.regs["x30"] = self.nxt(ins, obj)
            return ("goto", t)
        if mn in ("cbz", "cbnz"):
            return self.branch_zero(st, self.get(st, ops[0]), self.target(ins, obj), self.nxt(ins, obj), mn == "cbz", ins)
        if mn == "svc":
            st.effects.append(("syscall", ins))
            return None
        if mn == "mrs" or mn == "msr":
            k, r = (ops[1], ops[0]) if mn == "mrs" else (ops[0], ops[1])
            k = "sys_" + k.lower()
            if k not in st.regs:
                self.bad(ins, obj)
            if mn == "mrs":
                self.put(st, r, st.regs[k])
            else:
                st.regs[k] = self.get(st, r)
            return None
        self.bad(ins, obj)

    def size(self, r):
        if r[0] == "q":
            raise AsmError("q register")
        if r[0] in "ws":
            return 4 if r != "sp" else 8
        return 8


# --------------------------------------------------------------- ARM (A32)
class Arm(Risc):
    bits = 32
    _al = {"r13": "sp", "r14": "lr", "r15": "pc", "fp": "r11", "ip": "r12", "sl": "r10", "sb": "r9"}
    _mem = re.compile(r"^\[(\w+)(?:,\s*#(-?\w+))?\](!)?$")

    def norm(self, r):
        return self._al.get(r, r)

    def rl(self, s):
        return [self.norm(x.strip()) for x in s.strip("{} ").split(",")]

    def step(self, st, ins, obj):
        st.trace.append((obj.src, ins))
        mn, ops = ins.mn, split_ops(ins.ops)
        if mn == "nop":
            return None
        if mn in ("mov", "movw"):
            v = C(num(ops[1])) if ops[1].startswith("#") else self.get(st, ops[1])
            if ops[0] == "pc":
                return ("goto", v)
            self.put(st, ops[0], v)
            return None
        if mn in ("add", "sub"):
            if ops[1] == "pc":
                a = self.here(obj, ins.addr + 8)
            else:
                a = self.get(st, ops[1])
            if ops[2].startswith("#"):
                n = num(ops[2])
                self.put(st, ops[0], self.addi(a, n if mn == "add" else -n))
            else:
                b = self.get(st, ops[2])
                self.put(st, ops[0], add(a, b) if mn == "add" else sub(a, b))
            return None
        if mn == "bic":
            self.put(st, ops[0], and_(self.get(st, ops[1]), C(~num(ops[2]) & self.mask), 32))
            return None
        if mn == "and":
            self.put(st, ops[0], and_(self.get(st, ops[1]), C(num(ops[2]) & self.mask), 32))
            return None
        if mn in ("str", "ldr"):
            m = self._mem.match(ops[1])
            if not m:
                self.bad(ins, obj)
            r, d, wb = m.groups()
            base = self.get(st, r)
            a = self.addi(base, int(d, 0) if d else 0)
            v = self.get(st, ops[0]) if mn == "str" else None
            if wb:
                self.put(st, r, a)
            elif len(ops) == 3:
                self.put(st, r, self.addi(base, num(ops[2])))
            if mn == "str":
                self.store(st, a, v, 4, ins, obj)
                return None
            v = self.load(st, a, 4)
            if self.norm(ops[0]) == "pc":
                return ("goto", v)
            self.put(st, ops[0], v)
            return None
        if mn in ("push", "vpush", "stmdb", "vstmdb", "stmia", "stm", "vstmia", "pop", "vpop", "ldm", "ldmia", "vldmia"):
            pp = mn in ("push", "pop", "vpush", "vpop")
            rs = self.rl(ops[-1])
            if mn.startswith("v") is False and rs != sorted(rs, key=self.rnum):
                self.bad(ins, obj)
            wb = pp or ops[0].endswith("!")
            b = "sp" if pp else ops[0].rstrip("!")
            k = 8 if mn.startswith("v") else 4
            n = k * len(rs)
            down = mn in ("push", "vpush", "stmdb", "vstmdb")
            base = self.get(st, b)
            a = self.addi(base, -n) if down else base
            if mn in ("push", "vpush", "stmdb", "vstmdb", "stmia", "stm", "vstmia"):
                for i, r in enumerate(rs):
                    self.store(st, self.addi(a, k * i), self.get(st, r), k, ins, obj)
                if wb:
                    self.put(st, b, a if down else self.addi(base, n))
                return None
            vs = [self.load(st, self.addi(a, k * i), k) for i in range(len(rs))]
            if wb:
                self.put(st, b, self.addi(base, n))
            go = None
            for r, v in zip(rs, vs):
                if r == "pc":
                    go = v
                else:
                    self.put(st, r, v)
            return ("goto", go) if go is not None else None
        if mn == "bx":
            return ("goto", self.get(st, ops[0]))
        if mn == "b":
            return ("goto", self.target(ins, obj))
        if mn in ("bl", "blx"):
            t = self.get(st, ops[0]) if re.match(r"^(r\d+|lr|ip|fp)$", ops[0]) else self.target(ins, obj)
            st.regs["lr"] = self.nxt(ins, obj)
            return ("goto", t)
        if mn == "mrc":
            k = "tls_c%s_c%s_%d" % (ops[3].lstrip("c"), ops[4].lstrip("c"), num(ops[5]))
            self.put(st, ops[2], st.regs.setdefault(k, S("THREAD")))
            return None
        if mn in ("vmrs", "vmsr"):
            k, r = (ops[1], ops[0]) if mn == "vmrs" else (ops[0], ops[1])
            if mn == "vmrs":
                self.put(st, r, st.regs[k])
            else:
                st.regs[k] = self.get(st, r)
            return None
        if mn in ("svc", "swi"):
            st.effects.append(("syscall", ins))
            return None
        if mn in ("dmb", "dsb", "isb"):
            return None
        self.bad(ins, obj)

    def rnum(self, r):
        return {"sp": 13, "lr": 14, "pc": 15}.get(r) or int(r[1:])

    def target(self, ins, obj):
        if ins.reloc:
            return self.relsym(ins, obj)
        return self.here(obj, int(ins.ops.split()[0], 16))


# --------------------------------------------------------------- RISC-V
class RiscV(Risc):
    zeros = ("zero",)
    _mem = re.compile(r"^(-?\w+)\((\w+)\)$")

    def step(self, st, ins, obj):
        st.trace.append((obj.src, ins))
        mn, ops = ins.mn, split_ops(ins.ops)
        if mn in ("nop", "fence"):
            return None
        if ins.reloc and mn in ("auipc",):
            k = ins.reloc[0]
            rel = self.rels(ins)
            for k, s in rel:
                if k in ("R_RISCV_PCREL_HI20", "R_RISCV_CALL_PLT", "R_RISCV_CALL", "R_RISCV_GOT_HI20"):
                    v = self.sym(s, obj)
                    st.regs["hi_%x" % ins.addr] = v
                    if k.startswith("R_RISCV_CALL"):
                        self.put(st, ops[0], Val(("callhi", v)))
                    else:
                        self.put(st, ops[0], Val(("hi", ins.addr)))
                    return None
            self.bad(ins, obj)
        if mn in ("addi", "mv") and ins.reloc and any(k == "R_RISCV_PCREL_LO12_I" for k, _ in self.rels(ins)):
            for k, s in self.rels(ins):
                if k == "R_RISCV_PCREL_LO12_I":
                    at = obj.syms.get(s)
                    v = st.regs.get("hi_%x" % at) if at is not None else None
                    src = self.get(st, ops[1])
                    if v is None or src != Val(("hi", at)):
                        self.bad(ins, obj)
                    self.put(st, ops[0], v)
                    return None
        if mn == "mv":
            self.put(st, ops[0], self.get(st, ops[1]))
            return None
        if mn == "li":
            self.put(st, ops[0], C(num(ops[1])))
            return None
        if mn == "addi":
            self.put(st, ops[0], self.addi(self.get(st, ops[1]), num(ops[2])))
            return None
        if mn == "andi":
            self.put(st, ops[0], and_(self.get(st, ops[1]), C(num(ops[2]) & self.mask)))
            return None
        if mn in ("add", "sub", "and"):
            f = {"add": add, "sub": sub, "and": and_}[mn]
            self.put(st, ops[0], f(self.get(st, ops[1]), self.get(st, ops[2])))
            return None
        if mn in ("sd", "fsd", "sw", "fsw", "ld", "fld", "lw", "flw"):
            m = self._mem.match(ops[1])
            a = self.addi(self.get(st, m.group(2)), int(m.group(1), 0))
            n = 8 if mn.endswith("d") and not mn.endswith("w") else 4
            if mn in ("sd", "fsd", "sw", "fsw"):
                self.store(st, a, self.get(st, ops[0]), n, ins, obj)
            else:
                self.put(st, ops[0], self.load(st, a, n))
            return None
        if mn == "ret":
            return ("goto", self.get(st, "ra"))
        if mn in ("jr", "jalr"):
            r = ops[0].split()[0]
            if len(ops) > 1:
                self.bad(ins, obj)
            v = self.get(st, r)
            if isinstance(v.base, tuple) and v.base[0] == "callhi":
                v = v.base[1]
            if mn == "jalr":
                st.regs["ra"] = self.nxt(ins, obj)
            return ("goto", v)
        if mn in ("j", "tail"):
            return ("goto", self.target(ins, obj))
        if mn in ("beqz", "bnez"):
            return self.branch_zero(st, self.get(st, ops[0]), self.target(ins, obj), self.nxt(ins, obj), mn == "beqz", ins)
        if mn in ("frcsr", "fscsr"):
            if mn == "frcsr":
                self.put(st, ops[0], st.regs["fcsr"])
            else:
                st.regs["fcsr"] = self.get(st, ops[-1])
            return None
        if mn == "ecall":
            st.effects.append(("syscall", ins))
            return None
        self.bad(ins, obj)

    def rels(self, ins):
        return getattr(ins, "relocs", None) or ([ins.reloc] if ins.reloc else [])

    def sym(self, s, obj):
        if s in obj.syms:
            return self.here(obj, obj.syms[s])
        return Val(("extern", s))


# --------------------------------------------------------------- LoongArch
class Loong(Risc):
    zeros = ("$zero",)
    spname = "$sp"

    def step(self, st, ins, obj):
        st.trace.append((obj.src, ins))
        mn, ops = ins.mn, split_ops(ins.ops)
        if mn == "nop":
            return None
        if mn == "move":
            self.put(st, ops[0], self.get(st, ops[1]))
            return None
        if mn == "pcalau12i":
            if not ins.reloc:
                self.bad(ins, obj)
            self.put(st, ops[0], Val(("hi", self.relsym(ins, obj))))
            return None
        if mn == "addi.d" and ins.reloc:
            v = self.get(st, ops[1])
            if v != Val(("hi", self.relsym(ins, obj))):
                self.bad(ins, obj)
            self.put(st, ops[0], v.base[1])
            return None
        if mn == "addi.d":
            self.put(st, ops[0], self.addi(self.get(st, ops[1]), num(ops[2])))
            return None
        if mn in ("add.d", "sub.d", "and"):
            f = {"add.d": add, "sub.d": sub, "and": and_}[mn]
            self.put(st, ops[0], f(self.get(st, ops[1]), self.get(st, ops[2])))
            return None
        if mn in ("ori", "andi"):
            v = self.get(st, ops[1])
            n = num(ops[2])
            if mn == "ori":
                if v.const is None:
                    self.bad(ins, obj)
                self.put(st, ops[0], C(v.const | n))
            else:
                self.put(st, ops[0], and_(v, C(n)))
            return None
        if mn == "bstrins.d":
            hi, lo = num(ops[2]), num(ops[3])
            src = self.get(st, ops[1])
            if src.const != 0:
                self.bad(ins, obj)
            m = ((1 << (hi - lo + 1)) - 1) << lo
            self.put(st, ops[0], and_(self.get(st, ops[0]), C(~m & self.mask)))
            return None
        if mn in ("st.d", "fst.d", "ld.d", "fld.d"):
            a = self.addi(self.get(st, ops[1]), num(ops[2]))
            if mn in ("st.d", "fst.d"):
                self.store(st, a, self.get(st, ops[0]), 8, ins, obj)
            else:
                self.put(st, ops[0], self.load(st, a, 8))
            return None
        if mn == "ret":
            return ("goto", self.get(st, "$ra"))
        if mn == "jr":
            return ("goto", self.get(st, ops[0]))
        if mn in ("b", "bl"):
            t = self.target(ins, obj)
            if mn == "bl":
                st.regs["$ra"] = self.nxt(ins, obj)
            return ("goto", t)
        if mn == "jirl":
            if num(ops[2]):
                self.bad(ins, obj)
            t = self.get(st, ops[1])
            self.put(st, ops[0], self.nxt(ins, obj))
            return ("goto", t)
        if mn == "syscall":
            st.effects.append(("syscall", ins))
            return None
        self.bad(ins, obj)


# --------------------------------------------------------------- MIPS
class Mips(Risc):
    zeros = ("$zero",)
    spname = "$sp"
    delay = True
    little = False
    _mem = re.compile(r"^(-?\w+)\((\$\w+)\)$")

    def __init__(self, bits):
        self.bits = bits
        Risc.__init__(self)

    def clean(self, s):
        return re.sub(r"\s*<[^>]*>", "", s)

    def norm(self, r):
        return {"$0": "$zero", "$28": "$gp", "$29": "$sp", "$30": "$fp", "$31": "$ra"}.get(r, r)

    def step(self, st, ins, obj):
        st.trace.append((obj.src, ins))
        mn, ops = ins.mn, [self.clean(o) for o in split_ops(ins.ops)]
        if mn == "nop":
            return None
        if mn == "move":
            self.put(st, ops[0], self.get(st, ops[1]))
            return None
        if mn in ("addiu", "daddiu"):
            if ins.reloc:
                # _gp_disp: together with the function address this is the global pointer
                v = self.get(st, ops[1])
                if "_gp_disp" in ins.reloc[1] and v == Val("gphi"):
                    self.put(st, ops[0], Val("gpdisp"))
                    return None
                self.bad(ins, obj)
            self.put(st, ops[0], self.addi(self.get(st, ops[1]), num(ops[2])))
            return None
        if mn == "lui":
            if ins.reloc and "_gp_disp" in ins.reloc[1]:
                self.put(st, ops[0], Val("gphi"))
                return None
            if ins.reloc:
                self.bad(ins, obj)
            self.put(st, ops[0], C(num(ops[1]) << 16))
            return None
        if mn in ("addu", "daddu"):
            a, b = self.get(st, ops[1]), self.get(st, ops[2])
            if a == Val("gpdisp") or b == Val("gpdisp"):
                o = b if a == Val("gpdisp") else a
                if not (isinstance(o.base, tuple) and o.base[0] == "code"):
                    self.bad(ins, obj)
                self.put(st, ops[0], S("GP"))
                return None
            self.put(st, ops[0], add(a, b))
            return None
        if mn in ("subu", "dsubu"):
            self.put(st, ops[0], sub(self.get(st, ops[1]), self.get(st, ops[2])))
            return None
        if mn == "and":
            self.put(st, ops[0], and_(self.get(st, ops[1]), self.get(st, ops[2]), self.bits))
            return None
        if mn in ("sw", "sd", "sdc1", "swc1", "lw", "ld", "ldc1", "lwc1"):
            n = 8 if mn in ("sd", "sdc1", "ld", "ldc1") else 4
            m = self._mem.match(ops[1])
            if not m:
                self.bad(ins, obj)
            if ins.reloc:
                if mn not in ("lw", "ld") or not ("CALL16" in ins.reloc[0] or "GOT" in ins.reloc[0]):
                    self.bad(ins, obj)
                g = self.get(st, m.group(2))
                if g != S("GP"):
                    self.put(st, ops[0], Val(("badgot", g)))
                    return None
                self.put(st, ops[0], self.relsym(ins, obj))
                return None
            a = self.addi(self.get(st, m.group(2)), int(m.group(1), 0))
            if mn in ("sw", "sd", "sdc1", "swc1"):
                self.store(st, a, self.get(st, ops[0]), n, ins, obj)
            else:
                self.put(st, ops[0], self.load(st, a, n))
            return None
        if mn == "jr":
            return ("delay", self.get(st, ops[0]))
        if mn == "jalr":
            t = self.get(st, ops[-1])
            st.regs["$ra"] = self.here(obj, ins.addr + 8)
            return ("delay", t)
        if mn in ("b", "j"):
            return ("delay", self.target(ins, obj))
        if mn in ("jal", "bal"):
            st.regs["$ra"] = self.here(obj, ins.addr + 8)
            return ("delay", self.target(ins, obj))
        if mn == "syscall":
            st.effects.append(("syscall", ins))
            return None
        self.bad(ins, obj)


# --------------------------------------------------------------- PowerPC
class Ppc(Risc):
    spname = "r1"
    _mem = re.compile(r"^(-?\w+)\((\d+)\)$")

    def __init__(self, bits, little):
        self.bits, self.little = bits, little
        Risc.__init__(self)

    def r(self, n):
        return "r%d" % int(n)

    def rot_mask(self, mn, ops):
        sh, a, b = [int(x) for x in ops[2:5]] if mn == "rlwinm" else (int(ops[2]), 0, int(ops[3]))
        n = 32 if mn == "rlwinm" else 64
        if sh or (mn == "rlwinm" and a != 0):
            return None
        return ((1 << n) - 1) ^ ((1 << (n - 1 - b)) - 1)

    def step(self, st, ins, obj):
        st.trace.append((obj.src, ins))
        mn, ops = ins.mn, split_ops(ins.ops)
        if mn == "nop":
            return None
        if mn in ("mflr", "mfcr", "mfctr"):
            self.put(st, self.r(ops[0]), st.regs[mn[2:]])
            return None
        if mn in ("mtlr", "mtcr", "mtctr"):
            st.regs[mn[2:]] = self.get(st, self.r(ops[0]))
            return None
        if mn == "mffs":
            st.regs["f%d" % int(ops[0])] = st.regs["fpscr"]
            return None
        if mn == "mtfsf":
            if int(ops[0]) != 255:
                self.bad(ins, obj)
            st.regs["fpscr"] = st.regs["f%d" % int(ops[1])]
            return None
        if mn == "mr":
            self.put(st, self.r(ops[0]), self.get(st, self.r(ops[1])))
            return None
        if mn == "li":
            self.put(st, self.r(ops[0]), C(num(ops[1])))
            return None
        if mn in ("addi", "addis"):
            if ins.reloc:
                self.put(st, self.r(ops[0]), Val("TOC" if ins.reloc[1].startswith(".TOC.") else "GOT"))
                return None
            a = C(0) if int(ops[1]) == 0 else self.get(st, self.r(ops[1]))
            n = num(ops[2])
            self.put(st, self.r(ops[0]), self.addi(a, n << 16 if mn == "addis" else n))
            return None
        if mn in ("add", "subf"):
            a, b = self.get(st, self.r(ops[1])), self.get(st, self.r(ops[2]))
            self.put(st, self.r(ops[0]), add(a, b) if mn == "add" else sub(b, a))
            return None
        if mn in ("rlwinm", "rldicr"):
            m = self.rot_mask(mn, ops)
            if m is None:
                self.bad(ins, obj)
            self.put(st, self.r(ops[0]), and_(self.get(st, self.r(ops[1])), C(m), 32 if mn == "rlwinm" else 64))
            return None
        if mn in ("stw", "stwu", "std", "stdu", "stfd", "lwz", "ld", "lfd"):
            n = 4 if mn in ("stw", "stwu", "lwz") else 8
            m = self._mem.match(ops[1])
            if not m or ins.reloc:
                self.bad(ins, obj)
            rb = int(m.group(2))
            base = self.get(st, "r%d" % rb) if (rb or mn.endswith("u")) else C(0)
            a = self.addi(base, int(m.group(1), 0))
            reg = ("f%d" if "f" in mn else "r%d") % int(ops[0])
            if mn.startswith("st"):
                self.store(st, a, self.get(st, reg), n, ins, obj)
                if mn.endswith("u"):
                    self.put(st, "r%d" % rb, a)
            else:
                self.put(st, reg, self.load(st, a, n))
            return None
        if mn in ("stvx", "lvx"):
            a = add(C(0) if int(ops[1]) == 0 else self.get(st, self.r(ops[1])), self.get(st, self.r(ops[2])))
            reg = "v%d" % int(ops[0])
            if mn == "stvx":
                self.store(st, a, self.get(st, reg), 16, ins, obj)
            else:
                self.put(st, reg, self.load(st, a, 16))
            return None
        if mn in ("cmpdi", "cmpwi", "cmpldi", "cmplwi"):
            if len(ops) != 2 or num(ops[1]):
                self.bad(ins, obj)
            st.cmp = self.get(st, self.r(ops[0]))
            return None
        if mn in ("bt", "beq", "bf", "bne"):
            if mn in ("bt", "bf") and ops[0] != "2":
                self.bad(ins, obj)
            return self.branch_zero(st, st.cmp, self.target(ins, obj), self.nxt(ins, obj), mn in ("bt", "beq"), ins)
        if mn == "b":
            return ("goto", self.target(ins, obj))
        if mn == "bl":
            t = self.target(ins, obj)
            st.regs["lr"] = self.nxt(ins, obj)
            return ("goto", t)
        if mn == "blr":
            return ("goto", st.regs["lr"])
        if mn == "bctr":
            return ("goto", st.regs["ctr"])
        if mn == "bctrl":
            st.regs["lr"] = self.nxt(ins, obj)
            return ("goto", st.regs["ctr"])
        if mn == "sc":
            st.effects.append(("syscall", ins))
            return None
        self.bad(ins, obj)


# --------------------------------------------------------------- s390x
class S390(Risc):
    spname = "%r15"
    little = False
    _mem = re.compile(r"^(-?\w+)\((%r\d+)\)$")

    def reladj(self, ins, o):
        return o - 2 if "DBL" in ins.reloc[0] else o

    def ea(self, st, op, ins, obj):
        m = self._mem.match(op)
        if not m:
            self.bad(ins, obj)
        return self.addi(self.get(st, m.group(2)), int(m.group(1), 0))

    def step(self, st, ins, obj):
        st.trace.append((obj.src, ins))
        mn, ops = ins.mn, split_ops(ins.ops)
        if mn in ("nopr", "nop"):
            return None
        if mn == "aghi":
            self.put(st, ops[0], self.addi(self.get(st, ops[0]), num(ops[1])))
            return None
        if mn == "lghi":
            self.put(st, ops[0], C(num(ops[1])))
            return None
        if mn == "lgr":
            self.put(st, ops[0], self.get(st, ops[1]))
            return None
        if mn in ("la", "lay"):
            self.put(st, ops[0], self.ea(st, ops[1], ins, obj))
            return None
        if mn == "nill":
            self.put(st, ops[0], and_(self.get(st, ops[0]), C((self.mask ^ 0xffff) | num(ops[1]))))
            return None
        if mn in ("stg", "std"):
            self.store(st, self.ea(st, ops[1], ins, obj), self.get(st, ops[0]), 8, ins, obj)
            return None
        if mn in ("lg", "ld", "ltg"):
            v = self.load(st, self.ea(st, ops[1], ins, obj), 8)
            self.put(st, ops[0], v)
            if mn == "ltg":
                st.cmp = v
            return None
        if mn == "ltgr":
            v = self.get(st, ops[1])
            self.put(st, ops[0], v)
            st.cmp = v
            return None
        if mn in ("stmg", "lmg"):
            a, b = int(ops[0][2:]), int(ops[1][2:])
            ad = self.ea(st, ops[2], ins, obj)
            n = (b - a) % 16 + 1
            vals = []
            for i in range(n):
                r = "%%r%d" % ((a + i) % 16)
                if mn == "stmg":
                    self.store(st, self.addi(ad, 8 * i), self.get(st, r), 8, ins, obj)
                else:
                    vals.append((r, self.load(st, self.addi(ad, 8 * i), 8)))
            for r, v in vals:
                self.put(st, r, v)
            return None
        if mn == "stfpc":
            self.store(st, self.ea(st, ops[0], ins, obj), st.regs["fpc"], 4, ins, obj)
            return None
        if mn == "lfpc":
            st.regs["fpc"] = self.load(st, self.ea(st, ops[0], ins, obj), 4)
            return None
        if mn == "mvghi":
            self.store(st, self.ea(st, ops[0], ins, obj), C(num(ops[1])), 8, ins, obj)
            return None
        if mn == "larl":
            if ins.reloc:
                self.put(st, ops[0], self.relsym(ins, obj))
            else:
                self.put(st, ops[0], self.here(obj, int(ops[1].split()[0], 16)))
            return None
        if mn == "br":
            return ("goto", self.get(st, ops[0]))
        if mn in ("j", "jg"):
            return ("goto", self.target(ins, obj))
        if mn in ("jne", "je", "jnz", "jz"):
            return self.branch_zero(st, st.cmp, self.target(ins, obj), self.nxt(ins, obj), mn in ("je", "jz"), ins)
        if mn in ("brasl", "bras"):
            self.put(st, ops[0], self.nxt(ins, obj))
            return ("goto", self.target(ins, obj))
        if mn == "basr":
            t = self.get(st, ops[1])
            self.put(st, ops[0], self.nxt(ins, obj))
            return ("goto", t)
        if mn == "svc":
            st.effects.append(("syscall", ins))
            return None
        self.bad(ins, obj)


# --------------------------------------------------------------- SPARC V9
class Sparc(Risc):
    spname = "o6"
    little = False
    delay = True
    zeros = ("g0",)
    BIAS = 2047

    def norm(self, r):
        r = r.lstrip("%")
        return {"sp": "o6", "fp": "i6"}.get(r, r)

    def op(self, st, o):
        return self.get(st, o) if o.startswith("%") else C(num(o) & self.mask if False else num(o))

    def ea(self, st, o, ins, obj):
        m = re.match(r"^\[(%\w+)(?:\s*\+\s*(-?\w+|%\w+))?(?:\s*-\s*(\w+))?\]$", o)
        if not m:
            self.bad(ins, obj)
        a = self.get(st, m.group(1))
        if m.group(2):
            a = add(a, self.get(st, m.group(2))) if m.group(2).startswith("%") else self.addi(a, num(m.group(2)))
        if m.group(3):
            a = self.addi(a, -num(m.group(3)))
        return a

    def step(self, st, ins, obj):
        st.trace.append((obj.src, ins))
        mn, ops = ins.mn, split_ops(ins.ops)
        if mn == "nop":
            return None
        if mn == "mov":
            self.put(st, ops[1], self.op(st, ops[0]))
            return None
        if mn in ("add", "sub"):
            a, b = self.op(st, ops[0]), self.op(st, ops[1])
            self.put(st, ops[2], add(a, b) if mn == "add" else sub(a, b))
            return None
        if mn in ("and", "andn"):
            a, b = self.op(st, ops[0]), self.op(st, ops[1])
            if b.const is not None:
                b = C((~b.const if mn == "andn" else b.const) & self.mask)
            self.put(st, ops[2], and_(a, b))
            return None
        if mn == "stx":
            self.store(st, self.ea(st, ops[1], ins, obj), self.get(st, ops[0]), 8, ins, obj)
            return None
        if mn == "ldx":
            self.put(st, ops[1], self.load(st, self.ea(st, ops[0], ins, obj), 8))
            return None
        if mn == "rd":
            if ops[0] != "%pc":
                self.bad(ins, obj)
            self.put(st, ops[1], self.here(obj, ins.addr))
            return None
        if mn == "save":
            v = add(self.op(st, ops[0]), self.op(st, ops[1])) if ops else C(0)
            st.wins.append((st.regs["o6"], {k: st.regs[k] for k in self.li}))
            for i in range(8):
                st.regs["i%d" % i] = st.regs["o%d" % i]
                st.regs["o%d" % i] = fresh("o")
                st.regs["l%d" % i] = fresh("l")
            if ops:
                self.put(st, ops[2], v)
            return None
        if mn == "flushw":
            for sp, d in st.wins:
                for i, k in enumerate(self.li):
                    self.store(st, self.addi(sp, self.BIAS + 8 * i), d[k], 8, ins, obj)
            st.wins = []
            return None
        if mn == "restore":
            v = add(self.op(st, ops[0]), self.op(st, ops[1])) if ops else None
            for i in range(8):
                st.regs["o%d" % i] = st.regs["i%d" % i]
            if st.wins:
                sp, d = st.wins.pop()
                for k in self.li:
                    st.regs[k] = d[k]
            else:
                for i, k in enumerate(self.li):
                    st.regs[k] = self.load(st, self.addi(st.regs["o6"], self.BIAS + 8 * i), 8)
            if v is not None:
                self.put(st, ops[2], v)
            return None
        if mn == "ret":
            return ("delay", self.addi(st.regs["i7"], 8))
        if mn == "retl":
            return ("delay", self.addi(st.regs["o7"], 8))
        if mn == "jmp":
            return ("delay", self.get(st, ops[0].strip("[]")))
        if mn == "call":
            t = self.get(st, ops[0]) if ops[0].startswith("%") else self.target(ins, obj)
            st.regs["o7"] = self.here(obj, ins.addr)
            return ("delay", t)
        if mn in ("ta", "t"):
            st.effects.append(("syscall", ins))
            return None
        self.bad(ins, obj)

    li = ["l%d" % i for i in range(8)] + ["i%d" % i for i in range(8)]


def rrun(arch, st, objs, pc, limit=600):
    """propagate until control leaves the known code; yields (state, exit)"""
    work = [(st, pc, 0)]
    out = []
    while work:
        st, pc, n = work.pop()
        while True:
            if not (isinstance(pc.base, tuple) and pc.base[0] == "code"):
                out.append((st, pc))
                break
            obj = objs[pc.base[1]]
            ins = obj.insns.get(pc.off)
            if ins is None:
                out.append((st, Val(("fellout", obj.src), pc.off)))
                break
            n += 1
            if n > limit:
                raise AsmError("%s: control flow does not leave the routine" % obj.src)
            if ins.mn in ("unimp", "udf", "unimp", "<unknown>", "trap"):
                out.append((st, Val(("halt", obj.path), ins.addr)))
                break
            r = arch.step(st, ins, obj)
            nx = Val(("code", obj.path), ins.next if ins.next is not None else -1)
            if r is None:
                pc = nx
                continue
            if r[0] == "delay":
                d = obj.insns.get(nx.off)
                if d is None:
                    raise AsmError("%s: no delay slot after '%s'" % (obj.src, ins.text))
                if arch.step(st, d, obj) is not None:
                    raise AsmError("%s: branch in a delay slot" % obj.src)
                pc = r[1]
                continue
            if r[0] == "goto":
                pc = r[1]
                continue
            if r[0] == "split":
                v, ifz, ifnz = r[1:]
                k = st.forks.get(ins.addr, 0)
                st.forks[ins.addr] = k + 1
                if k > 2:
                    break
                s2 = st.copy()
                s2.zero[v] = False
                st.zero[v] = True
                work.append((s2, ifnz, n))
                pc = ifz
                continue
    return out
