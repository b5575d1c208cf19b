"""Dataflow core for assembler switch routines.

Abstract values are (base, offset) pairs: base is None (constant), a symbol
name, or a Herbrand term (tuple).  Memory is byte-granular, keyed by the
symbolic base, so a frame written through one routine can be read back through
another.  No instruction is executed: registers hold symbols standing for
"whatever the program had there", and the transfer functions below propagate
them along the control flow graph of the assembled object.
"""
import re, subprocess, os, tempfile


class AsmError(Exception):
    pass


class Val:
    __slots__ = ("base", "off")

    def __init__(self, base, off=0):
        self.base = base
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Val) and self.base == o.base and self.off == o.off

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        if self.base is None:
            return hex(self.off) if self.off >= 0 else "-" + hex(-self.off)
        b = fmt(self.base)
        if self.off == 0:
            return b
        return "%s%+d" % (b, self.off)

    def add(self, n):
        return Val(self.base, self.off + n)

    @property
    def const(self):
        return self.off if self.base is None else None


def fmt(t):
    if isinstance(t, tuple):
        return "%s(%s)" % (t[0], ",".join(fmt(x) for x in t[1:]))
    return str(t)


def C(n):
    return Val(None, n)


def S(name):
    return Val(name, 0)


_fresh = [0]


def fresh(tag):
    _fresh[0] += 1
    return Val("%s#%d" % (tag, _fresh[0]))


def term(op, *args):
    return Val((op,) + tuple(args), 0)


def add(a, b, mask=None):
    if b.base is None:
        r = a.add(b.off)
    elif a.base is None:
        r = b.add(a.off)
    else:
        return term("add", a, b)
    if r.base is None and mask:
        r = Val(None, r.off & mask)
    return r


def sub(a, b, mask=None):
    if b.base is None:
        r = a.add(-b.off)
    elif a.base == b.base:
        r = C(a.off - b.off)
    else:
        return term("sub", a, b)
    if r.base is None and mask:
        r = Val(None, r.off & mask)
    return r


def and_(a, b, bits=64):
    if a.const is not None and b.const is None:
        a, b = b, a
    if b.const is not None:
        m = b.const & ((1 << bits) - 1)
        if a.const is not None:
            return C(a.const & m)
        inv = (~m) & ((1 << bits) - 1)
        if m == (1 << bits) - 1:
            return a
        if m == 0:
            return C(0)
        if inv & (inv + 1) == 0 and inv:      # ...111000: align down
            n = inv + 1
            al = alignment(a)
            if al is not None and al[0] % n == 0 and al[0] >= n:
                return a.add(-(al[1] % n))
            return Val(("align", n, a), 0)
    return term("and", a, b)


# known alignment of bases: name -> (modulus, residue)
ALIGN = {}


def alignment(v):
    """(modulus, residue of v) when known."""
    if v.base is None:
        return (1 << 32, v.off % (1 << 32))
    if isinstance(v.base, tuple) and v.base[0] == "align":
        return (v.base[1], v.off % v.base[1])
    if v.base in ALIGN:
        m, r = ALIGN[v.base]
        return (m, (r + v.off) % m)
    return None


class Mem:
    """byte-granular store keyed by symbolic base"""

    def __init__(self, other=None):
        self.cells = {k: dict(v) for k, v in other.cells.items()} if other else {}

    def store(self, addr, val, n):
        d = self.cells.setdefault(addr.base, {})
        for i in range(n):
            d[addr.off + i] = (val, i, n)

    def load(self, addr, n, little=True):
        d = self.cells.setdefault(addr.base, {})
        got = [d.get(addr.off + i) for i in range(n)]
        if all(g is None for g in got):
            v = Val(("mem", n, addr), 0)
            for i in range(n):
                d[addr.off + i] = (v, i, n)
            return v
        if got[0] is not None and all(g is not None and g[0] == got[0][0] and g[1] == i and g[2] == n for i, g in enumerate(got)):
            return got[0][0]
        if got[0] is not None and all(g is not None and g[0].const is not None for g in got):
            bs = []
            for g in got:
                v, i, w = g
                if not little:
                    i = w - 1 - i
                bs.append((v.const >> (8 * i)) & 255)
            if not little:
                bs.reverse()
            return C(sum(b << (8 * i) for i, b in enumerate(bs)))
        # a sub-range of one wider value
        return Val(("bytes", n) + tuple(("uninit", addr.off + i) if g is None else (g[0], g[1], g[2]) for i, g in enumerate(got)), 0)

    def has(self, addr, n):
        d = self.cells.get(addr.base, {})
        return all((addr.off + i) in d and not (isinstance(d[addr.off + i][0].base, tuple) and d[addr.off + i][0].base[0] == "mem") for i in range(n))


class Insn:
    __slots__ = ("addr", "mn", "ops", "text", "reloc", "relocs", "next")

    def __init__(self, addr, mn, ops, text):
        self.addr, self.mn, self.ops, self.text = addr, mn, ops, text
        self.reloc = None
        self.relocs = []
        self.next = None


class Obj:
    """one assembled source file"""

    def __init__(self, path, src):
        self.path, self.src = path, src
        self.insns = {}
        self.syms = {}       # name -> addr (text)
        self.order = []


OBJDUMP = "llvm-objdump"
CLANG = "clang"
LLVM_ML = "llvm-ml"
READELF = "llvm-readelf"
for _n in ("/usr/lib/llvm-18/bin/",):
    if os.path.exists(_n + "llvm-objdump"):
        OBJDUMP = _n + "llvm-objdump"
        READELF = _n + "llvm-readelf"
    if os.path.exists(_n + "llvm-ml"):
        LLVM_ML = _n + "llvm-ml"
    if os.path.exists(_n + "clang"):
        CLANG = _n + "clang"

_line = re.compile(r"^\s*([0-9a-f]+):\s+(.*)$")
_sym = re.compile(r"^([0-9a-f]+) <([^>]+)>:$")
_rel = re.compile(r"^\s*([0-9a-f]+):\s+((?:R_|ARM|X86|IMAGE_|GENERIC|SECTDIFF|BRANCH|PAGE|GOT|UNSIGNED|SUBTR|HI16|LO16|HA16|BR24|LOCAL|SIGNED|TLV|PAIR|VANILLA|\S*RELOC)\S*)\s+(\S.*)$")


def assemble(src, target, flags, out):
    cmd = [CLANG, "--target=" + target, "-x", "assembler-with-cpp", "-c", src, "-o", out] + list(flags)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise AsmError("assembling %s for %s failed:\n%s" % (src, target, r.stderr[:2000]))
    return out


def assemble_masm(src, bits, out):
    """llvm-ml lacks the assume directive, prototypes and the build's visibility macro;
    none of them produces code"""
    res = []
    text = open(src, encoding="latin-1").read()
    labels = set(re.findall(r"^(\w+):", text, re.M))
    for ln in text.splitlines():
        # ml takes a code label in these places as its address; llvm-ml needs it spelled out
        m = re.match(r"^(\s*mov\s+\w+\s*,\s*)(\w+)\s*$", ln.split(";")[0])
        if m and m.group(2) in labels:
            ln = m.group(1) + "OFFSET " + m.group(2)
        m = re.match(r"^(\s*lea\s+\w+\s*,\s*)(\w+)\s*$", ln.split(";")[0])
        if m and m.group(2) in labels:
            ln = m.group(1) + ("[rip + %s]" if bits == 64 else "%s") % m.group(2)
        m = re.match(r"^\s*(\w+)\s+PROTO\b", ln, re.I)
        if m:
            res.append("EXTERN %s:PROC" % m.group(1))
            continue
        if re.match(r"^\s*assume\b", ln, re.I):
            continue
        res.append(ln.rstrip("\n").replace("BOOST_CONTEXT_EXPORT", ""))
    t = out + ".asm"
    open(t, "w").write("\n".join(res) + "\n")
    r = subprocess.run([LLVM_ML, "-m%d" % bits, "-c", t, "-Fo", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise AsmError("assembling %s failed:\n%s" % (src, r.stderr[:2000]))
    return out


def disassemble(path, src, extra=()):
    cmd = [OBJDUMP, "-d", "-r", "--no-show-raw-insn", "-z"] + list(extra) + [path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise AsmError("objdump failed on %s: %s" % (path, r.stderr[:500]))
    o = Obj(path, src)
    cur = None
    for ln in r.stdout.splitlines():
        m = _sym.match(ln)
        if m:
            o.syms.setdefault(m.group(2), int(m.group(1), 16))
            continue
        m = _rel.match(ln)
        if m and o.order:
            # relocation belongs to the last instruction emitted
            o.insns[o.order[-1]].relocs.append((m.group(2), m.group(3).strip()))
            if "SECTDIFF" not in m.group(2) and "PAIR" not in m.group(2) and "RELAX" not in m.group(2):
                o.insns[o.order[-1]].reloc = (m.group(2), m.group(3).strip())
            continue
        m = _line.match(ln)
        if not m:
            continue
        addr = int(m.group(1), 16)
        body = m.group(2).strip()
        body = re.sub(r"\s+(##?|//|@|;|!)\s.*$", "", body) if not body.startswith("#") else ""
        body = body.split("\t# ")[0].split(" # ")[0].strip()
        if not body:
            continue
        parts = body.split(None, 1)
        mn = parts[0].lower()
        ops = parts[1].strip() if len(parts) > 1 else ""
        ins = Insn(addr, mn, ops, body)
        if o.order:
            o.insns[o.order[-1]].next = addr
        o.order.append(addr)
        o.insns[addr] = ins
    if o.order:
        o.insns[o.order[-1]].next = o.order[-1] + 1      # no instruction there: the routine ends
    # every text symbol, also those sharing an address with another label
    r = subprocess.run([OBJDUMP, "-t", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for ln in r.stdout.splitlines():
        m = re.match(r"^([0-9a-f]{8,16}) .*?(\S*text\S*)\s.*?(\S+)$", ln)
        if m and m.group(3) not in (".text", "__text") and int(m.group(1), 16) in o.insns:
            o.syms.setdefault(m.group(3), int(m.group(1), 16))
    return o


def symtab(path):
    r = subprocess.run([READELF, "-s", "-S", "-W", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.stdout


def split_ops(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
