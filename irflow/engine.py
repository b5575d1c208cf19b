"""Context-switch aware abstract interpreter over LLVM IR.

The analysis propagates abstract states (typestate of objects, memory regions
and execution contexts; affine values) through the interprocedural control flow
graph, following calls, exceptions and context switches, and merges states that
are equal up to renaming at the client's loop heads (vf_point) until nothing
new appears.  Nothing of /repo is executed.
"""
import ctypes, os, re, sys, time
from llvmir import Module, GlobalRef, UNDEF, Fn, live_after, TERMS
from lin import *
import lin as lin_

M64 = (1 << 64) - 1
NONE_LOC = ("", 0)

try:
    _cxx = ctypes.CDLL("libstdc++.so.6")
    _dem = getattr(_cxx, "__cxa_demangle")
    _dem.restype = ctypes.c_void_p
    _dem.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.POINTER(ctypes.c_int)]
except Exception:
    _dem = None
_dcache = {}


def demangle(n):
    r = _dcache.get(n)
    if r is None:
        r = n
        if _dem and n.startswith("_Z"):
            st = ctypes.c_int()
            p = _dem(n.encode(), None, None, ctypes.byref(st))
            if p and st.value == 0:
                r = ctypes.cast(p, ctypes.c_char_p).value.decode("utf-8", "replace")
        _dcache[n] = r
    return r


ARITH = ("add", "sub", "mul", "shl")


class AnalysisError(Exception):
    pass


class PathEnd(Exception):
    pass


class Violation(Exception):
    def __init__(self, cat, msg, end=True):
        self.cat, self.msg, self.end = cat, msg, end


class Cmp:
    """boolean: lin <op> 0"""
    __slots__ = ("op", "lin")

    def __init__(self, op, lin):
        self.op, self.lin = op, lin

    def __eq__(self, o):
        return type(o) is Cmp and o.op == self.op and o.lin == self.lin

    def __hash__(self):
        return hash((self.op, self.lin))

    def __repr__(self):
        return "[%r %s 0]" % (self.lin, self.op)

    def negate(self):
        return Cmp({"eq": "ne", "ne": "eq", "ge": "lt", "lt": "ge"}[self.op], self.lin)


class Obj:
    __slots__ = ("id", "kind", "size", "alive", "cells", "fills", "home", "base", "name", "meta", "owner", "dead_by")

    def __init__(self, id, kind, size, name, align=16):
        self.id, self.kind, self.size, self.name = id, kind, size, name
        self.alive = True
        self.cells = {}
        self.fills = []
        self.home = None
        self.meta = {}
        self.base = Sym("&" + name, "base", id, None, align)
        self.owner = None
        self.dead_by = None

    def copy(self, owner):
        o = Obj.__new__(Obj)
        o.id, o.kind, o.size, o.alive, o.name, o.base, o.home, o.dead_by = self.id, self.kind, self.size, self.alive, self.name, self.base, self.home, self.dead_by
        o.cells = {k: dict(v) for k, v in self.cells.items()}
        o.fills = list(self.fills)
        o.meta = dict(self.meta)
        o.owner = owner
        return o


class Frame:
    __slots__ = ("fn", "b", "i", "regs", "allocas", "prev", "tag", "sps")

    def __init__(self, fn):
        self.fn = fn
        self.b = self.i = 0
        self.regs = {}
        self.allocas = []
        self.prev = -1
        self.tag = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.b, f.i, f.prev, f.tag = self.fn, self.b, self.i, self.prev, self.tag
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        return f


class Ctx:
    __slots__ = ("id", "frames", "region", "status", "token", "entry", "name", "meta")

    def __init__(self, id, name):
        self.id, self.name = id, name
        self.frames = []
        self.region = None
        self.status = "running"
        self.token = None
        self.entry = None
        self.meta = {}

    def copy(self):
        c = Ctx(self.id, self.name)
        c.frames = [f.copy() for f in self.frames]
        c.region, c.status, c.token, c.entry = self.region, self.status, self.token, self.entry
        c.meta = dict(self.meta)
        return c


class Thread:
    __slots__ = ("id", "ctx", "caught", "dtors", "tls", "seg", "tsan", "done", "winfiber", "uncaught")

    def __init__(self, id):
        self.id = id
        self.ctx = None
        self.caught = []
        self.dtors = []
        self.tls = {}
        self.seg = None
        self.tsan = None
        self.done = False
        self.winfiber = 0
        self.uncaught = 0

    def copy(self):
        t = Thread(self.id)
        t.ctx, t.caught, t.dtors, t.tls, t.seg, t.tsan, t.done, t.winfiber, t.uncaught = self.ctx, list(self.caught), list(self.dtors), dict(self.tls), self.seg, self.tsan, self.done, self.winfiber, self.uncaught
        return t


class State:
    _ids = [0]

    def __init__(self):
        self.objs = {}
        self.ctxs = {}
        self.threads = {}
        self.cur_t = 0
        self.facts = ()
        self.live = {}
        self.opts = {}
        self.trail = None
        self.globals = {}
        self.steps = 0
        self.depth = 0
        self.asan = None
        State._ids[0] += 1
        self.sid = State._ids[0]

    def copy(self):
        s = State.__new__(State)
        s.objs = dict(self.objs)
        s.ctxs = {k: c.copy() for k, c in self.ctxs.items()}
        s.threads = {k: t.copy() for k, t in self.threads.items()}
        s.cur_t, s.facts = self.cur_t, self.facts
        s.live = dict(self.live)
        s.opts = dict(self.opts)
        s.trail = self.trail
        s.globals = dict(self.globals)
        s.steps = self.steps
        s.depth = self.depth
        s.asan = self.asan
        State._ids[0] += 2
        s.sid = State._ids[0]
        self.sid = s.sid - 1       # both copies must now copy objects before writing
        return s

    @property
    def thread(self):
        return self.threads[self.cur_t]

    @property
    def ctx(self):
        return self.ctxs[self.threads[self.cur_t].ctx]

    def w(self, oid):
        o = self.objs[oid]
        if o.owner != self.sid:
            o = o.copy(self.sid)
            self.objs[oid] = o
        return o


_oid = [0]


def new_id():
    _oid[0] += 1
    return _oid[0]


class Engine:
    def __init__(self, module, natives, config=None):
        self.m = module
        self.nat = natives
        self.cfg = config or {}
        self.violations = {}
        self.order = []
        self.work = []
        self.seen = set()
        self.shapes = {}           # states up to the integers they store, and those integers
        self.wcells = set()
        self.tlscells = {}
        self.wsyms = set()         # symbols that stand for every value of a widened cell
        self.stats = {"paths": 0, "steps": 0, "points": 0, "merged": 0, "forks": 0, "switches": 0, "mem": 0, "oblig": 0, "undecided": 0, "checks": {}}
        self.fn_seen = set()
        self.loc_seen = set()
        self.undecided = {}
        self.max_steps = self.cfg.get("max_steps", 6000000)
        self.max_path = self.cfg.get("max_path", 400000)
        self.deadline = self.cfg.get("deadline")
        self.typeids = {}
        self._pn = {}
        from llvmir import L
        self.tlsnames = frozenset(n for n, gv in self.m.gv.items() if gv and L.IsThreadLocal(gv))

    # ------------------------------------------------------------ values
    def val(self, st, fr, o):
        if o[0] == "r":
            return fr.regs[o[1]]
        v = o[1]
        if type(v) is GlobalRef:
            return self.gaddr(st, v)
        if type(v) is tuple:
            return self.cagg(st, v)
        return v

    def cagg(self, st, v):
        return tuple(self.gaddr(st, x) if type(x) is GlobalRef else self.cagg(st, x) if type(x) is tuple and not (x and x[0] in ("fp", "zeros")) else x for x in v)

    def gaddr(self, st, g):
        if g.name in self.tlsnames:
            return add(self.nat.tls_cell(self, st, g.name), g.off)
        oid = self.gobj(st, g.name)
        return L1(st.objs[oid].base, g.off)

    def gobj(self, st, name):
        oid = st.globals.get(name)
        if oid is not None:
            return oid
        nm = self.m.alias.get(name, name)
        if nm != name:
            oid = self.gobj(st, nm)
            st.globals[name] = oid
            return oid
        key = ("g", name)
        cached = self._pn.get(key)
        if cached is None:
            oid = new_id()
            if name in self.m.fnptr:
                o = Obj(oid, "func", 1, name, 16)
            else:
                gv = self.m.gv.get(name)
                from llvmir import L
                size = self.m.type(L.GlobalGetValueType(gv)).size if gv else 8
                o = Obj(oid, "global", max(size, 1), name, 16)
                if gv:
                    o.meta["const"] = bool(L.IsGlobalConstant(gv))
                    o.meta["gv"] = True
                    if name == "__libc_single_threaded":
                        # threads may exist
                        o.cells = {(): {0: (max(size, 1), 0)}}
            self._pn[key] = o
            cached = o
        o = cached.copy(st.sid)
        st.objs[o.id] = o
        st.globals[name] = o.id
        if o.kind == "global":
            from llvmir import L
            gv = self.m.gv.get(name)
            init = L.GetInitializer(gv) if gv else None
            if init:
                t = self.m.type(L.GlobalGetValueType(gv))
                self.init_store(st, o, 0, t, self.m.const(init))
        return o.id

    def init_store(self, st, o, off, t, v):
        if v is UNDEF:
            o.fills.append((off, off + t.size, 0))
            return
        if v == ("zeros",):
            o.fills.append((off, off + t.size, 0))
            return
        if t.kind == "struct":
            for e, eo, x in zip(t.elems, t.offs, v):
                self.init_store(st, o, off + eo, e, x)
        elif t.kind in ("array", "vector"):
            for i, x in enumerate(v):
                self.init_store(st, o, off + i * t.elem.size, t.elem, x)
        else:
            if type(v) is GlobalRef:
                v = self.gaddr(st, v)
            o.cells.setdefault((), {})[off] = (t.store, v)

    # ------------------------------------------------------------ memory
    def alloc(self, st, kind, size, name, align=16):
        o = Obj(new_id(), kind, size, name, align)
        o.owner = st.sid
        st.objs[o.id] = o
        return o

    def resolve(self, st, p, n, what):
        """-> (Obj, key, off)"""
        if type(p) is not Lin:
            if p is UNDEF:
                raise Violation("wild-pointer", "%s through an undefined pointer" % what)
            raise Violation("null-deref", "%s through address %s" % (what, hex(p) if type(p) is int else p))
        bs = None
        for s, k in p.terms:
            if s.kind == "base" and k == 1:
                bs = s
                break
        if bs is not None:
            oid = bs.obj
            if len(p.terms) == 1:
                key = ()
            else:
                key = tuple(t for t in p.terms if t[0] is not bs)
        else:
            oid = prov(p)
            if oid is None:
                s0 = p.terms[0][0]
                raise Violation("wild-pointer", "%s through a value that is not a pointer (%r)" % (what, p))
            key = p.terms
        o = st.objs.get(oid)
        if o is None:
            raise Violation("use-after-scope", "%s: the object it points to (%s) no longer exists" % (what, self.symname(p)))
        if not o.alive:
            raise Violation("use-after-free", "%s: %s was already released%s" % (what, o.name, " (%s)" % o.dead_by if o.dead_by else ""))
        if o.kind == "tls" and o.meta.get("thread") != st.cur_t:
            raise Violation("thread-local", "C14: no per-thread location obtained before a switch is used after it: %s of %s on another thread" % (what, o.name))
        c = p.c
        if key == () and type(o.size) is int:
            if c < 0 or c + n > o.size:
                if n > 0:
                    raise Violation("out-of-bounds", "%s: %d bytes at offset %d of %s, which has %d bytes" % (what, n, c, o.name, o.size))
        else:
            off = sub(p, L1(o.base))
            self.require(st, off, "out-of-bounds", "%s below the start of %s" % (what, o.name))
            self.require(st, sub(o.size, add(off, n)), "out-of-bounds", "%s beyond the end of %s" % (what, o.name))
        return o, key, c

    def symname(self, p):
        for s, k in p.terms:
            if s.kind == "base":
                return s.name.lstrip("&")
        return repr(p)

    def require(self, st, l, cat, msg, end=True):
        """obligation l >= 0"""
        self.stats["oblig"] += 1
        if prove_ge0(l, st.facts):
            return True
        w = witness(l, st.facts)
        if w is not None:
            raise Violation(cat, msg + " when " + ", ".join("%s=%s" % (s.name, hex(v)) for s, v in sorted(w.items(), key=lambda x: x[0].id)), end)
        self.stats["undecided"] += 1
        self.undecided[msg] = repr(l)
        return None

    def load_cell(self, st, o, key, off, n):
        cells = o.cells.get(key)
        if cells:
            e = cells.get(off)
            if e is not None:
                if e[0] == n:
                    return e[1]
                if e[0] > n:
                    v = e[1]
                    if type(v) is int:
                        return v & ((1 << (8 * n)) - 1)
                    if type(v) is Lin:
                        return opaque("low%d" % n, v)
                    return v if type(v) is Cmp else UNDEF
            # compose from pieces
            bs = []
            for i in range(n):
                b = None
                for w in (1, 2, 4, 8, 16):
                    for d in range(w):
                        e = cells.get(off + i - d)
                        if e is not None and e[0] == w and d < w:
                            if type(e[1]) is int:
                                b = (e[1] >> (8 * d)) & 255
                            else:
                                b = "x"
                            break
                    if b is not None:
                        break
                if b is None:
                    for (a, z, v) in reversed(o.fills):
                        if key == () and a <= off + i < z:
                            b = v
                            break
                bs.append(b)
            if all(type(b) is int for b in bs):
                return sum(b << (8 * i) for i, b in enumerate(bs))
            if any(b == "x" for b in bs):
                return opaque("mix", o.id, off, n, id(cells))
        if key == ():
            for (a, z, v) in reversed(o.fills):
                if a <= off and off + n <= z:
                    return sum(v << (8 * i) for i in range(n)) if type(v) is int else UNDEF
                if a < off + n and off < z:
                    break
        return UNDEF

    def store_cell(self, st, o, key, off, n, v):
        """o must be writable"""
        cells = o.cells.get(key)
        if cells is None:
            cells = o.cells[key] = {}
        e = cells.get(off)
        if e is not None and e[0] == n:
            cells[off] = (n, v)
            return
        if cells:
            for d in range(off - 15, off + n):
                e = cells.get(d)
                if e is not None and d + e[0] > off:
                    del cells[d]
                    if type(e[1]) is int:
                        for j in range(e[0]):
                            if not off <= d + j < off + n:
                                cells[d + j] = (1, (e[1] >> (8 * j)) & 255)
        cells[off] = (n, v)

    def load(self, st, p, t, what="read"):
        if t.kind == "struct":
            return tuple(self.load(st, add(p, o), e, what) for e, o in zip(t.elems, t.offs))
        if t.kind in ("array", "vector"):
            return tuple(self.load(st, add(p, i * t.elem.size), t.elem, what) for i in range(t.n))
        self.stats["mem"] += 1
        o, key, off = self.resolve(st, p, t.store, what)
        v = self.load_cell(st, o, key, off, t.store)
        if t.kind == "int" and t.bits == 1 and type(v) is int:
            v &= 1
        return v

    def store(self, st, p, t, v, what="write"):
        if t.kind == "struct":
            for i, (e, o) in enumerate(zip(t.elems, t.offs)):
                self.store(st, add(p, o), e, v[i] if type(v) is tuple else UNDEF, what)
            return
        if t.kind in ("array", "vector"):
            for i in range(t.n):
                self.store(st, add(p, i * t.elem.size), t.elem, v[i] if type(v) is tuple else UNDEF, what)
            return
        self.stats["mem"] += 1
        o, key, off = self.resolve(st, p, t.store, what)
        if o.meta.get("const"):
            raise Violation("write-to-constant", "%s: %s is constant" % (what, o.name))
        o = st.w(o.id)
        self.watch_stack(st, o, p, t.store, what)
        self.store_cell(st, o, key, off, t.store, v)

    def watch_stack(self, st, o, p, n, what):
        rsv = o.meta.get("reserved")
        if rsv is not None and not prove_ge0(sub(rsv, add(p, n)), st.facts) and witness(sub(rsv, add(p, n)), st.facts) is not None:
            raise Violation("placement", "%s into memory the caller reserved above the stack pointer it supplied" % what)
        stk = o.meta.get("stack")
        if not stk:
            return
        for (cid, lo, hi) in stk:
            c = st.ctxs.get(cid)
            if c is None or c.status == "dead" or c.status == "fresh":
                continue
            # a write below hi (stack top) hits frames of a live context
            if prove_ge0(sub(p, hi), st.facts):
                continue
            w = witness(sub(p, hi), st.facts)
            if w is not None:
                raise Violation("stack-overwrite", "%s into memory that is the stack of a live context" % what)

    def memcpy(self, st, d, s, n, what="memcpy"):
        if n == 0:
            return
        if type(n) is not int:
            raise AnalysisError("copy of symbolic size")
        so, sk, soff = self.resolve(st, s, n, what + " source")
        do, dk, doff = self.resolve(st, d, n, what + " destination")
        src = so.cells.get(sk, {})
        got = [(o - soff, w, v) for o, (w, v) in src.items() if soff <= o and o + w <= soff + n]
        part = [(o, w, v) for o, (w, v) in src.items() if o < soff + n and o + w > soff and not (soff <= o and o + w <= soff + n)]
        fills = [(max(a, soff) - soff, min(z, soff + n) - soff, v) for a, z, v in so.fills if sk == () and a < soff + n and z > soff]
        if do.meta.get("const"):
            raise Violation("write-to-constant", "%s: %s is constant" % (what, do.name))
        do = st.w(do.id)
        self.watch_stack(st, do, d, n, what)
        self.clear(st, do, dk, doff, n)
        if dk == ():
            for a, z, v in fills:
                do.fills.append((doff + a, doff + z, v))
        else:
            for a, z, v in fills:
                if z - a <= 4096 and v == 0:
                    x = a
                    cells = do.cells.setdefault(dk, {})
                    while x < z:
                        w = 8 if x + 8 <= z else 1
                        cells[doff + x] = (w, 0)
                        x += w
        cells = do.cells.setdefault(dk, {})
        for o, w, v in got:
            self.store_cell(st, do, dk, doff + o, w, v)
        for o, w, v in part:
            for j in range(w):
                if soff <= o + j < soff + n:
                    cells[doff + o + j - soff] = (1, (v >> (8 * j)) & 255 if type(v) is int else UNDEF)

    def clear(self, st, o, key, off, n):
        cells = o.cells.get(key)
        if cells:
            for d in [k for k, e in cells.items() if k < off + n and k + e[0] > off]:
                e = cells.pop(d)
                if type(e[1]) is int:
                    for j in range(e[0]):
                        if not off <= d + j < off + n:
                            cells[d + j] = (1, (e[1] >> (8 * j)) & 255)
        if key == () and o.fills:
            nf = []
            for a, z, v in o.fills:
                if a < off + n and z > off:
                    if a < off:
                        nf.append((a, off, v))
                    if z > off + n:
                        nf.append((off + n, z, v))
                else:
                    nf.append((a, z, v))
            o.fills = nf

    def memset(self, st, d, b, n, what="memset"):
        if n == 0:
            return
        if type(n) is not int:
            return self.memset_range(st, d, b, n, what)
        o, key, off = self.resolve(st, d, n, what)
        if o.meta.get("const"):
            raise Violation("write-to-constant", "%s: %s is constant" % (what, o.name))
        o = st.w(o.id)
        self.watch_stack(st, o, d, n, what)
        self.clear(st, o, key, off, n)
        if key == ():
            o.fills.append((off, off + n, b & 255 if type(b) is int else UNDEF))
            if len(o.fills) > 64:
                o.fills = o.fills[-64:]
        else:
            cells = o.cells.setdefault(key, {})
            x = 0
            while x < n:
                w = 8 if x + 8 <= n else 1
                cells[off + x] = (w, sum((b & 255) << (8 * i) for i in range(w)) if type(b) is int else UNDEF)
                x += w

    def memset_range(self, st, d, b, n, what):
        """a fill whose size is not a number"""
        o, key, off = self.resolve(st, d, 0, what)
        lo = sub(d, L1(o.base))
        self.require(st, sub(o.size, add(lo, n)), "out-of-bounds", "%s beyond the end of %s" % (what, o.name))
        if o.meta.get("const"):
            raise Violation("write-to-constant", "%s: %s is constant" % (what, o.name))
        o = st.w(o.id)
        self.watch_stack(st, o, d, n, what)
        if lo == 0 and not any(k[0] == o.id for k in st.live) and (n == o.size or prove_ge0(sub(n, o.size), st.facts)):
            o.cells, o.fills = {}, [(0, 1 << 62, b & 255 if type(b) is int else UNDEF)]
            return
        for k in list(o.cells):
            for f, (w, v) in list(o.cells[k].items()):
                a = sub(add(Lin(k, f), 0), L1(o.base)) if any(s is o.base for s, _ in k) or prov(Lin(k, 0)) == o.id else add(Lin(k, f), 0) if k else f
                if prove_ge0(sub(a, add(lo, n)), st.facts) or prove_ge0(sub(lo, add(a, w)), st.facts):
                    continue
                o.cells[k][f] = (w, opaque("filled", o.id, f, w, id(o.cells)))
        for k in list(st.live):
            if k[0] == o.id:
                a = add(Lin(k[1], k[2]), 0) if k[1] else k[2]
                a = sub(a, L1(o.base)) if type(a) is Lin and prov(a) == o.id else a
                if not (prove_ge0(sub(a, add(lo, n)), st.facts) or prove_ge0(sub(lo, add(a, 1)), st.facts)):
                    raise AnalysisError("fill of symbolic size over a live object")

    def read64(self, st, p, off=0, n=8, what="read"):
        o, key, c = self.resolve(st, add(p, off), n, what)
        return self.load_cell(st, o, key, c, n)

    def write64(self, st, p, v, off=0, n=8, what="write"):
        o, key, c = self.resolve(st, add(p, off), n, what)
        o = st.w(o.id)
        self.store_cell(st, o, key, c, n, v)

    def tracked_in(self, st, oid, p=None, n=None):
        r = []
        for k in st.live:
            if k[0] == oid:
                if p is None or (k[1] == p[0] and p[1] <= k[2] < p[1] + n):
                    r.append(k)
        return r

    def kill_obj(self, st, oid, why, remove=False):
        """storage ends: tracked objects inside must be gone"""
        o = st.objs.get(oid)
        if o is None:
            return
        if st.live:
            t = self.tracked_in(st, oid)
            if t:
                kinds = ", ".join(sorted(set(st.live[k] for k in t)))
                for k in t:
                    del st.live[k]
                raise Violation("not-destroyed", "%s while an object in it (%s) has not been destroyed" % (why, kinds))
        if remove:
            del st.objs[oid]
        else:
            o = st.w(oid)
            o.alive = False
            o.dead_by = why
            o.cells = {}
            o.fills = []

    # ------------------------------------------------------------ control
    def push(self, st, fname, args, tag=None):
        F = self.m.fn(fname)
        if F is None or F.decl:
            if st.opts.get("noeffect"):
                raise Violation("effect", "external function %s called on a path that must have no effect outside the program (%s)" % (demangle(fname), st.opts.get("phase", "switch")))
            raise AnalysisError("call of %s, which has no body and no model" % demangle(fname))
        fr = Frame(F)
        fr.tag = tag
        self.fn_seen.add(fname)
        st.ctx.frames.append(fr)
        if len(st.ctx.frames) > 200:
            raise AnalysisError("recursion too deep in %s" % demangle(fname))
        for i in range(F.nparams):
            v = args[i] if i < len(args) else UNDEF
            if i in F.byval:
                o = self.alloc(st, "alloca", F.byval[i], "by-value argument of %s" % demangle(fname)[:60], 16)
                o.home = st.ctx.id
                fr.allocas.append(o.id)
                self.memcpy(st, L1(o.base), v, F.byval[i], "pass by value")
                v = L1(o.base)
            fr.regs[i] = v
        return fr

    def finish_call(self, st, value):
        """complete the pending call of the current frame"""
        fr = st.ctx.frames[-1]
        ins = fr.fn.blocks[fr.b][fr.i]
        fr.regs[ins[1]] = value
        if ins[0] == "invoke":
            fr.prev, fr.b, fr.i = fr.b, ins[6], 0
        else:
            fr.i += 1

    def pop_frame(self, st):
        c = st.ctx
        fr = c.frames.pop()
        for oid in fr.allocas:
            if oid in st.objs:
                self.kill_obj(st, oid, "end of %s" % demangle(fr.fn.name)[:80], remove=True)
        return fr

    def do_return(self, st, v):
        c = st.ctx
        fr = c.frames[-1]
        tag = fr.tag
        self.pop_frame(st)
        if tag is not None:
            r = tag[0](self, st, v, *tag[1:])
            if r == "handled":
                return
            v = r if r is not None else v
        if not c.frames:
            self.nat.context_returned(self, st, c)
            return
        self.finish_call(st, v)

    # exceptions ---------------------------------------------------
    def type_bases(self, name):
        r = self._pn.get(("ti", name))
        if r is not None:
            return r
        from llvmir import L
        out = [name]
        gv = self.m.gv.get(name)
        init = L.GetInitializer(gv) if gv else None
        if init:
            v = self.m.const(init)
            for x in v[2:]:
                if type(x) is GlobalRef and x.name.startswith("_ZTI"):
                    out += self.type_bases(x.name)
                elif type(x) is tuple:
                    for y in x:
                        if type(y) is GlobalRef:
                            out += self.type_bases(y.name)
        else:
            ext = {"_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt12system_error": ["_ZTISt13runtime_error"], "_ZTISt13runtime_error": ["_ZTISt9exception"],
                   "_ZTISt17bad_function_call": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"], "_ZTISt12length_error": ["_ZTISt11logic_error"],
                   "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"], "_ZTISt16invalid_argument": ["_ZTISt11logic_error"]}
            for b in ext.get(name, []):
                out += self.type_bases(b)
        self._pn[("ti", name)] = out
        return out

    def clause_matches(self, clause, tname):
        k, v = clause
        if k == "catch":
            if v == 0 or v is UNDEF:
                return True
            return type(v) is GlobalRef and v.name in self.type_bases(tname)
        if k == "filter":
            return not any(type(x) is GlobalRef and x.name in self.type_bases(tname) for x in (v if type(v) is tuple else ()))
        return False

    def typeid(self, v):
        key = v.name if type(v) is GlobalRef else "..."
        if key not in self.typeids:
            self.typeids[key] = len(self.typeids) + 1
        return self.typeids[key]

    def lp_of(self, F, ins):
        for x in F.blocks[ins[7]]:
            if x[0] == "landingpad":
                return x
        raise AnalysisError("no landingpad")

    def throw(self, st, exc, resume=False):
        """exc: exception object id; start (or continue) unwinding the running context"""
        c = st.ctx
        o = st.objs[exc]
        tname = o.meta["type"]
        frames = c.frames
        if not resume:
            st.thread.uncaught += 1
            # search phase
            found = False
            for fr in reversed(frames):
                if fr.b >= len(fr.fn.blocks):
                    continue
                ins = fr.fn.blocks[fr.b][fr.i]
                if ins[0] == "invoke":
                    lp = self.lp_of(fr.fn, ins)
                    if any(self.clause_matches(cl, tname) for cl in lp[2]):
                        found = True
                        break
            if not found:
                self.nat.terminate(self, st, "exception %s finds no handler on %s" % (demangle("_Z" + tname[4:]) if False else self.tname(tname), c.name))
        while frames:
            fr = frames[-1]
            ins = fr.fn.blocks[fr.b][fr.i]
            if ins[0] == "invoke":
                lp = self.lp_of(fr.fn, ins)
                sel = None
                for cl in lp[2]:
                    if self.clause_matches(cl, tname):
                        sel = self.typeid(cl[1]) if cl[0] == "catch" else -1
                        break
                if sel is None and lp[3]:
                    sel = 0
                if sel is not None:
                    fr.prev, fr.b, fr.i = fr.b, ins[7], 0
                    # find landingpad index (after phis)
                    fr.regs["lp"] = (L1(o.base), sel)
                    return
            self.pop_frame(st)
        self.nat.terminate(self, st, "exception left the last frame of %s" % c.name)

    def tname(self, t):
        d = demangle(t)
        return d.replace("typeinfo for ", "")

    # ------------------------------------------------------------ reports
    def where(self, st):
        out = []
        try:
            c = st.ctx
        except KeyError:
            return out
        for fr in reversed(c.frames):
            if fr.b < len(fr.fn.blocks) and fr.i < len(fr.fn.blocks[fr.b]):
                ins = fr.fn.blocks[fr.b][fr.i]
                loc = self.loc(ins)
            else:
                loc = NONE_LOC
            out.append((demangle(fr.fn.name), loc[0], loc[1]))
        return out

    @staticmethod
    def loc(ins):
        for x in reversed(ins):
            if type(x) is tuple and len(x) == 2 and type(x[0]) is str and type(x[1]) is int and x[0] not in ("r", "c"):
                return x
        return NONE_LOC

    def report(self, st, cat, msg):
        w = self.where(st)
        # the innermost frame inside the library names the construct
        site = None
        for f, fl, ln in w:
            if "/repo/" in fl or fl.startswith("/repo"):
                site = (f, fl, ln)
                break
        if site is None and w:
            site = w[0]
        key = (cat, msg.split(" when ")[0] if cat == "rule" else msg.split(" when ")[0][:60], site[0][:200] if site else "", site[1:] if site else "")
        if key in self.violations:
            self.violations[key]["n"] += 1
            return
        trail = []
        t = st.trail
        while t is not None and len(trail) < 60:
            trail.append(t[1])
            t = t[0]
        self.violations[key] = {"cat": cat, "msg": msg, "site": site, "stack": w[:14], "trail": trail[::-1], "n": 1, "ctx": st.ctx.name if st.threads else ""}
        self.order.append(key)

    def note(self, st, s):
        st.trail = (st.trail, s)

    # ------------------------------------------------------------ main loop
    def run(self, entry, args=()):
        st = State()
        t = Thread(0)
        st.threads[0] = t
        c = Ctx(new_id(), "main")
        st.ctxs[c.id] = c
        t.ctx = c.id
        self.nat.init(self, st)
        self.push(st, entry, list(args))
        self.entry = entry
        # global constructors run first, on top of the driver frame
        for f in self.nat.ctors(self):
            pass
        self.work = [st]
        while self.work:
            st = self.work.pop()
            self.stats["paths"] += 1
            self.run_path(st)
            if self.stats["steps"] > self.max_steps:
                raise AnalysisError("no fixpoint within %d steps (driver %s)" % (self.max_steps, entry))
            if self.deadline and time.time() > self.deadline:
                raise AnalysisError("time limit reached in driver %s" % entry)

    def run_path(self, st):
        n = 0
        disp = self.disp
        try:
            while True:
                try:
                    while True:
                        fr = st.ctx.frames[-1]
                        ins = fr.fn.blocks[fr.b][fr.i]
                        n += 1
                        disp[ins[0]](self, st, fr, ins)
                        if n > self.max_path:
                            raise AnalysisError("path too long in %s (last at %s)" % (self.entry, self.where(st)[:3]))
                except Violation as v:
                    self.report(st, v.cat, v.msg)
                    if v.end:
                        raise PathEnd()
                    # continue after the call that reported
                    self.finish_call(st, UNDEF)
        except PathEnd:
            pass
        self.stats["steps"] += n

    # instruction handlers
    def i_alloca(self, st, fr, ins):
        n = self.val(st, fr, ins[3])
        size = ins[2] * n if type(n) is int else None
        if size is None:
            raise AnalysisError("variable length alloca")
        nm = ins[6] or "local of %s" % demangle(fr.fn.name)[:50]
        o = self.alloc(st, "alloca", size, nm, ins[4])
        o.home = st.ctx.id
        fr.allocas.append(o.id)
        fr.regs[ins[1]] = L1(o.base)
        fr.i += 1

    def i_load(self, st, fr, ins):
        p = self.val(st, fr, ins[3])
        if ins[5] != "na" and "refcnt" in st.opts:
            self.nat.atomic_load(self, st, p, ins[5])
        fr.regs[ins[1]] = self.load(st, p, ins[2])
        fr.i += 1

    def i_store(self, st, fr, ins):
        v = self.val(st, fr, ins[3])
        p = self.val(st, fr, ins[4])
        if ins[6] != "na" and "refcnt" in st.opts:
            self.nat.atomic_store(self, st, p, ins)
        if "shared" in st.opts and st.opts["shared"] <= 0 and ins[6] == "na" and "once" not in st.opts:
            o = st.objs.get(prov(p)) if type(p) is Lin else None
            if o is not None and o.kind == "global" and not o.meta.get("const") and ("5boost7context" in o.name or "_GLOBAL__N_1" in o.name):
                raise Violation("race", "%s, which all threads share, is written without synchronisation" % o.name)
        self.store(st, p, ins[2], v)
        fr.i += 1

    def i_gep(self, st, fr, ins):
        p = self.val(st, fr, ins[2])
        off = ins[3]
        for o, sc in ins[4]:
            v = self.val(st, fr, o)
            if type(v) is int:
                if v >= 1 << 63:
                    v -= 1 << 64
                off = add(off, v * sc)
            elif type(v) is Lin:
                off = add(off, scale(v, sc))
            else:
                raise Violation("wild-pointer", "address computed from an undefined value")
        if p is UNDEF:
            fr.regs[ins[1]] = UNDEF
        else:
            r = add(p, off)
            fr.regs[ins[1]] = r & M64 if type(r) is int else r
        fr.i += 1

    def i_br(self, st, fr, ins):
        fr.prev, fr.b, fr.i = fr.b, ins[2], 0

    def truth(self, st, v):
        """True / False / None"""
        if type(v) is int:
            return bool(v & 1)
        if type(v) is Cmp:
            l, f = v.lin, st.facts
            if v.op == "ge":
                if prove_ge0(l, f):
                    return True
                if prove_ge0(add(neg(l), -1), f):
                    return False
            elif v.op == "lt":
                if prove_ge0(l, f):
                    return False
                if prove_ge0(add(neg(l), -1), f):
                    return True
            else:
                z = None
                if prove_ge0(add(l, -1), f) or prove_ge0(add(neg(l), -1), f):
                    z = False
                elif prove_ge0(l, f) and prove_ge0(neg(l), f):
                    z = True
                if z is not None:
                    return z if v.op == "eq" else not z
        return None

    def assume(self, st, v, want):
        if type(v) is not Cmp:
            return
        c = v if want else v.negate()
        if c.op in ("ge", "lt") and "distinct" in st.opts:
            ob = [x.obj for x, k in c.lin.terms if x.obj is not None and abs(k) == 1]
            if len(ob) == 2 and ob[0] != ob[1]:
                # different objects have different addresses
                l = c.lin if c.op == "ge" else neg(c.lin)
                st.facts += (add(l, -1),)
                return
        if c.op == "ge":
            st.facts += (c.lin,)
        elif c.op == "lt":
            st.facts += (add(neg(c.lin), -1),)
        elif c.op == "eq":
            st.facts += (c.lin, neg(c.lin))
        elif type(c.lin) is Lin:
            # different, and on one side of it
            if prove_ge0(c.lin, st.facts):
                st.facts += (add(c.lin, -1),)
            elif prove_ge0(neg(c.lin), st.facts):
                st.facts += (add(neg(c.lin), -1),)

    def i_condbr(self, st, fr, ins):
        v = self.val(st, fr, ins[2])
        if type(v) is int:
            fr.prev, fr.b, fr.i = fr.b, (ins[3] if v & 1 else ins[4]), 0
            return
        if v is UNDEF:
            raise Violation("uninitialised", "decision depends on an uninitialised value")
        t = self.truth(st, v)
        if t is None:
            s2 = st.copy()
            self.stats["forks"] += 1
            self.assume(s2, v, False)
            f2 = s2.ctx.frames[-1]
            f2.prev, f2.b, f2.i = f2.b, ins[4], 0
            l = self.loc(ins)
            self.note(s2, "%s:%d condition false" % (os.path.basename(l[0]), l[1]))
            self.work.append(s2)
            self.assume(st, v, True)
            self.note(st, "%s:%d condition true" % (os.path.basename(l[0]), l[1]))
            t = True
        fr.prev, fr.b, fr.i = fr.b, (ins[3] if t else ins[4]), 0

    def i_switch(self, st, fr, ins):
        v = self.val(st, fr, ins[2])
        if type(v) is not int:
            if v is UNDEF:
                raise Violation("uninitialised", "switch depends on an uninitialised value")
            # fork over all targets
            tg = set(b for _, b in ins[3]) | {ins[4]}
            tg = sorted(tg)
            for b in tg[1:]:
                s2 = st.copy()
                f2 = s2.ctx.frames[-1]
                f2.prev, f2.b, f2.i = f2.b, b, 0
                self.work.append(s2)
            fr.prev, fr.b, fr.i = fr.b, tg[0], 0
            return
        for c, b in ins[3]:
            if c == v:
                fr.prev, fr.b, fr.i = fr.b, b, 0
                return
        fr.prev, fr.b, fr.i = fr.b, ins[4], 0

    def i_phi(self, st, fr, ins):
        # evaluate all phis of the block simultaneously
        blk = fr.fn.blocks[fr.b]
        vals = []
        i = fr.i
        while blk[i][0] == "phi":
            vals.append((blk[i][1], self.val(st, fr, blk[i][2][fr.prev])))
            i += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.i = i

    def i_ret(self, st, fr, ins):
        v = self.val(st, fr, ins[2][0]) if ins[2] else None
        self.do_return(st, v)

    def i_unreachable(self, st, fr, ins):
        raise Violation("unreachable", "control reaches a point the compiler treats as unreachable (returned from a [[noreturn]] path or fell off a function)")

    def i_landingpad(self, st, fr, ins):
        fr.regs[ins[1]] = fr.regs["lp"]
        fr.i += 1

    def i_resume(self, st, fr, ins):
        v = self.val(st, fr, ins[2][0])
        oid = prov(v[0])
        self.pop_frame(st)
        self.throw(st, oid, resume=True)

    def i_call(self, st, fr, ins):
        callee = ins[3]
        if callee[0] == "asm":
            self.nat.asm(self, st, fr, ins)
            return
        if callee[0] == "c" and type(callee[1]) is GlobalRef:
            name = callee[1].name
        else:
            p = self.val(st, fr, callee)
            if type(p) is not Lin:
                raise Violation("null-deref" if p == 0 else "wild-pointer", "call through %s" % ("a null function pointer" if p == 0 else "an undefined function pointer"))
            o = st.objs.get(prov(p))
            if o is None or o.kind != "func" or p.c:
                raise Violation("wild-pointer", "call through a pointer that is not a function (%r)" % p)
            name = o.name
        self.call(st, fr, ins, name, [self.val(st, fr, a) for a in ins[4]])

    def call(self, st, fr, ins, name, args):
        name = self.m.alias.get(name, name)
        h = self.nat.lookup(self, name)
        if h is not None:
            try:
                h(self, st, ins, args)
            except (TypeError, AttributeError, KeyError):
                if any(a is UNDEF for a in args):
                    raise Violation("uninitialised", "a value that was never stored is passed to %s" % name)
                raise
            return
        self.push(st, name, args)

    def binop(f):
        def g(self, st, fr, ins):
            a = self.val(st, fr, ins[2][0])
            b = self.val(st, fr, ins[2][1])
            w = ins[3].bits
            r = f(self, st, a, b, w)
            if w == 64 and type(r) is Lin and "wrap" in st.opts and ins[0] in ARITH and prov(r) is None and not (ins[0] == "sub" and a == 0):
                r = self.modular(st, ins, r)
            fr.regs[ins[1]] = r
            fr.i += 1
        return g

    def modular(self, st, ins, r):
        """unsigned 64-bit result of an exact value; the cases are explored apart"""
        if any(s.obj is not None for s, _ in r.terms):
            return r
        alts = []
        hi, lo = Cmp("ge", add(r, -(1 << 64))), Cmp("lt", r)
        th, tl = self.truth(st, hi), self.truth(st, lo)
        if th is False and tl is False:
            return r
        vals = []
        if th is not True and tl is not True:
            vals.append((r, (add(neg(r), M64), r), None))
        if th is not False:
            w = add(r, -(1 << 64))
            t2 = self.truth(st, Cmp("ge", add(w, -(1 << 64))))
            if t2 is not True:
                vals.append((w, (w, add(neg(w), M64)), "wraps around"))
            if t2 is not False:
                o = opaque("mod64", r)
                vals.append((o, (add(w, -(1 << 64)), o, add(neg(o), M64)), "wraps around more than once"))
        if tl is not False:
            w = add(r, 1 << 64)
            vals.append((w, (add(neg(r), -1), w, add(neg(w), M64)), "wraps around below 0"))
        loc = self.loc(ins)
        for v, facts, note in vals[1:]:
            s2 = st.copy()
            self.stats["forks"] += 1
            s2.facts += tuple(facts)
            f2 = s2.ctx.frames[-1]
            f2.regs[ins[1]] = v
            f2.i += 1
            if note:
                self.note(s2, "%s:%d %s" % (os.path.basename(loc[0]), loc[1], note))
            self.work.append(s2)
        v, facts, note = vals[0]
        st.facts += tuple(facts)
        return v

    @staticmethod
    def sgn(v, w):
        return v - (1 << w) if v >= 1 << (w - 1) else v

    @binop
    def i_add(self, st, a, b, w):
        if type(a) is int and type(b) is int:
            return (a + b) & ((1 << w) - 1)
        if a is UNDEF or b is UNDEF or type(a) is Cmp or type(b) is Cmp:
            return UNDEF
        if type(a) is int:
            a = self.sgn(a, w)
        if type(b) is int:
            b = self.sgn(b, w)
        return add(a, b)

    @binop
    def i_sub(self, st, a, b, w):
        if type(a) is int and type(b) is int:
            return (a - b) & ((1 << w) - 1)
        if a is UNDEF or b is UNDEF or type(a) is Cmp or type(b) is Cmp:
            return UNDEF
        if type(a) is int:
            a = self.sgn(a, w)
        if type(b) is int:
            b = self.sgn(b, w)
        return sub(a, b)

    @binop
    def i_mul(self, st, a, b, w):
        if type(a) is int and type(b) is int:
            return (a * b) & ((1 << w) - 1)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            return scale(a, self.sgn(b, w))
        return opaque("mul", a, b)

    @binop
    def i_udiv(self, st, a, b, w):
        if b == 0:
            raise Violation("div-by-zero", "division by zero")
        if type(a) is int and type(b) is int:
            return a // b
        if type(b) is int and type(a) is Lin:
            return floordiv(a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return opaque("udiv", a, b)

    i_sdiv = i_udiv

    @binop
    def i_urem(self, st, a, b, w):
        if b == 0:
            raise Violation("div-by-zero", "division by zero")
        if type(a) is int and type(b) is int:
            return a % b
        if type(b) is int and type(a) is Lin:
            if b & (b - 1) == 0:
                return sub(a, align_down(a, b))
            return sub(a, scale(floordiv(a, b), b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return opaque("urem", a, b)

    i_srem = i_urem

    @binop
    def i_shl(self, st, a, b, w):
        if type(a) is int and type(b) is int:
            return (a << b) & ((1 << w) - 1)
        if type(b) is int and type(a) is Lin:
            return scale(a, 1 << b)
        return UNDEF if a is UNDEF or b is UNDEF else opaque("shl", a, b)

    @binop
    def i_lshr(self, st, a, b, w):
        if type(a) is int and type(b) is int:
            return a >> b
        if type(b) is int and type(a) is Lin:
            return floordiv(a, 1 << b)
        return UNDEF if a is UNDEF or b is UNDEF else opaque("lshr", a, b)

    @binop
    def i_ashr(self, st, a, b, w):
        if type(a) is int and type(b) is int:
            return (self.sgn(a, w) >> b) & ((1 << w) - 1)
        if type(b) is int and type(a) is Lin:
            return floordiv(a, 1 << b)
        return UNDEF if a is UNDEF or b is UNDEF else opaque("ashr", a, b)

    @binop
    def i_and(self, st, a, b, w):
        m = (1 << w) - 1
        if type(a) is int and type(b) is int:
            return a & b
        if a == 0 or b == 0:
            return 0
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            if type(a) is Cmp:
                return a if b & 1 else 0
            if b == m:
                return a
            inv = (~b) & m
            if inv & (inv + 1) == 0:
                return align_down(a, inv + 1)
            if b & (b + 1) == 0:
                if prov(a) is None and prove_ge0(a, st.facts) and prove_ge0(sub(b, a), st.facts):
                    return a
                return sub(a, align_down(a, b + 1))
            return opaque("and", a, b)
        if w == 1:
            ta, tb = self.truth(st, a), self.truth(st, b)
            if ta is False or tb is False:
                return 0
            if ta is True:
                return b
            if tb is True:
                return a
        if type(a) is Lin and type(b) is Lin:
            # x & ~(align-1) with symbolic operands, or x & -n
            return opaque("and", a, b)
        return opaque("and", a, b)

    @binop
    def i_or(self, st, a, b, w):
        if type(a) is int and type(b) is int:
            return a | b
        if a == 0:
            return b
        if b == 0:
            return a
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(b) is int and type(a) is Lin:
            m, r = known_align(a)
            if b < m and r & b == 0:
                return add(a, b)
        e = halves(b, a) or halves(a, b)
        if e is not None:
            return e
        return opaque("or", a, b)

    @binop
    def i_xor(self, st, a, b, w):
        if type(a) is int and type(b) is int:
            return a ^ b
        if type(a) is Cmp and b == 1:
            return a.negate()
        if type(b) is Cmp and a == 1:
            return b.negate()
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if b == 0:
            return a
        if type(b) is int and b == (1 << w) - 1 and type(a) is Lin:
            return add(neg(a), -1)
        return opaque("xor", a, b)

    def i_icmp(self, st, fr, ins):
        pred, w = ins[2], ins[5]
        a = self.val(st, fr, ins[3])
        b = self.val(st, fr, ins[4])
        fr.regs[ins[1]] = self.icmp(st, pred, a, b, w)
        fr.i += 1

    def icmp(self, st, pred, a, b, w):
        if type(a) is int and type(b) is int:
            if pred[0] == "s":
                a, b = self.sgn(a, w), self.sgn(b, w)
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred[-2:]])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is Cmp or type(b) is Cmp:
            if type(b) is Cmp:
                a, b = b, a
            if type(b) is int:
                if pred == "eq":
                    return a if b == 1 else a.negate() if b == 0 else 0
                if pred == "ne":
                    return a if b == 0 else a.negate() if b == 1 else 1
                if pred in ("sgt", "ugt") and b == 0:
                    return a
            return opaque("cmp", pred, a, b)
        pa, pb = prov(a), prov(b)
        if pred in ("eq", "ne"):
            if a == b:
                return int(pred == "eq")
            if (pa is not None and type(b) is int) or (pb is not None and type(a) is int):
                # a pointer into an object is not null and not an integer constant
                return int(pred == "ne")
            if pa is not None and pb is not None and pa != pb:
                return int(pred == "ne")
        if type(a) is int and (pred[0] == "s" or a >= 1 << 63):
            a = self.sgn(a, w) if pred[0] == "s" else a
        if type(b) is int and pred[0] == "s":
            b = self.sgn(b, w)
        d = sub(a, b)
        if type(d) is int:
            return int({"eq": d == 0, "ne": d != 0, "gt": d > 0, "ge": d >= 0, "lt": d < 0, "le": d <= 0}[pred[-2:]])
        c = {"eq": Cmp("eq", d), "ne": Cmp("ne", d), "gt": Cmp("lt", neg(d)), "ge": Cmp("ge", d), "lt": Cmp("lt", d), "le": Cmp("ge", neg(d))}[pred[-2:]]
        t = self.truth(st, c)
        return c if t is None else int(t)

    def i_trunc(self, st, fr, ins):
        v = self.val(st, fr, ins[2])
        if type(v) is int:
            v &= (1 << ins[4]) - 1
        elif type(v) is Lin and not self.fits(st, v, ins[4]):
            v = opaque("trunc%d" % ins[4], v)
        fr.regs[ins[1]] = v
        fr.i += 1

    def fits(self, st, v, w):
        """does truncation to w bits keep the value (as an unsigned or as a signed number)?"""
        if w < 32 or prov(v) is not None:
            return False
        f = st.facts
        if prove_ge0(v, f):
            return bool(prove_ge0(sub((1 << w) - 1, v), f))
        return bool(prove_ge0(add(v, 1 << (w - 1)), f) and prove_ge0(sub((1 << (w - 1)) - 1, v), f))

    def i_zext(self, st, fr, ins):
        v = self.val(st, fr, ins[2])
        fr.regs[ins[1]] = v
        fr.i += 1

    def i_sext(self, st, fr, ins):
        v = self.val(st, fr, ins[2])
        if type(v) is int:
            v = self.sgn(v, ins[3]) & ((1 << ins[4]) - 1)
        fr.regs[ins[1]] = v
        fr.i += 1

    def i_cast(self, st, fr, ins):
        fr.regs[ins[1]] = self.val(st, fr, ins[2][0])
        fr.i += 1

    def i_select(self, st, fr, ins):
        c = self.val(st, fr, ins[2][0])
        if c is UNDEF:
            raise Violation("uninitialised", "decision depends on an uninitialised value")
        t = self.truth(st, c)
        if t is None:
            s2 = st.copy()
            self.assume(s2, c, False)
            f2 = s2.ctx.frames[-1]
            f2.regs[ins[1]] = self.val(s2, f2, ins[2][2])
            f2.i += 1
            self.work.append(s2)
            self.assume(st, c, True)
            t = True
        fr.regs[ins[1]] = self.val(st, fr, ins[2][1] if t else ins[2][2])
        fr.i += 1

    def i_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins[2][0])
        for k in ins[3]:
            v = v[k] if type(v) is tuple else UNDEF
        fr.regs[ins[1]] = v
        fr.i += 1

    def i_insertvalue(self, st, fr, ins):
        a = self.val(st, fr, ins[2][0])
        b = self.val(st, fr, ins[2][1])

        def put(a, t, ix):
            if not ix:
                return b
            l = list(a) if type(a) is tuple else [UNDEF] * t.n
            l[ix[0]] = put(l[ix[0]], t.elems[ix[0]] if t.kind == "struct" else t.elem, ix[1:])
            return tuple(l)
        fr.regs[ins[1]] = put(a, ins[4], ins[3])
        fr.i += 1

    def i_extractelement(self, st, fr, ins):
        v = self.val(st, fr, ins[2][0])
        i = self.val(st, fr, ins[2][1])
        fr.regs[ins[1]] = v[i] if type(v) is tuple and type(i) is int else UNDEF
        fr.i += 1

    def i_insertelement(self, st, fr, ins):
        v = self.val(st, fr, ins[2][0])
        x = self.val(st, fr, ins[2][1])
        i = self.val(st, fr, ins[2][2])
        l = list(v) if type(v) is tuple else [UNDEF] * ins[3].n
        if type(i) is int:
            l[i] = x
        fr.regs[ins[1]] = tuple(l)
        fr.i += 1

    def i_atomicrmw(self, st, fr, ins):
        p = self.val(st, fr, ins[4])
        v = self.val(st, fr, ins[5])
        t = ins[2]
        old = self.load(st, p, t, "atomic update")
        w = t.bits
        op = ins[3]
        if op == "xchg":
            new = v
        elif type(old) is int and type(v) is int:
            m = (1 << w) - 1
            new = {"add": old + v, "sub": old - v, "and": old & v, "or": old | v, "xor": old ^ v, "max": max(old, v), "umax": max(old, v), "umin": min(old, v)}.get(op, 0) & m
        elif type(old) is Lin and op in ("add", "sub") and type(v) is int:
            new = add(old, v if op == "add" else -v)
        else:
            new = UNDEF
        self.nat.atomic(self, st, p, op, v, ins[7], ins)
        self.store(st, p, t, new, "atomic update")
        fr.regs[ins[1]] = old
        fr.i += 1

    def i_cmpxchg(self, st, fr, ins):
        p = self.val(st, fr, ins[3])
        e = self.val(st, fr, ins[4])
        n = self.val(st, fr, ins[5])
        old = self.load(st, p, ins[2], "atomic update")
        c = self.icmp(st, "eq", old, e, ins[2].bits)
        t = self.truth(st, c)
        if t is None:
            t = False
        if t:
            self.store(st, p, ins[2], n, "atomic update")
        fr.regs[ins[1]] = (old, int(t))
        fr.i += 1

    def i_fence(self, st, fr, ins):
        self.nat.fence(self, st, ins[2], ins)
        fr.i += 1

    def i_fp(self, st, fr, ins):
        ops = [self.val(st, fr, o) for o in ins[2]]
        op = ins[0]
        if op in ("uitofp", "sitofp"):
            fr.regs[ins[1]] = ("fpi", ops[0])
        elif op in ("fptoui", "fptosi") and type(ops[0]) is tuple and ops[0][0] == "fpi":
            fr.regs[ins[1]] = ops[0][1]
        elif op == "fdiv" and all(type(o) is tuple for o in ops):
            fr.regs[ins[1]] = ("fpdiv", ops[0], ops[1])
        else:
            fr.regs[ins[1]] = ("fpop", op, len(ops))
        fr.i += 1

    def i_vaarg(self, st, fr, ins):
        raise AnalysisError("variadic access in %s" % demangle(fr.fn.name))

    disp = {}


for _n in ("alloca", "load", "store", "gep", "br", "condbr", "switch", "phi", "ret", "unreachable", "landingpad", "resume", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem",
           "shl", "lshr", "ashr", "and", "or", "xor", "icmp", "trunc", "zext", "sext", "select", "extractvalue", "insertvalue", "extractelement", "insertelement", "atomicrmw", "cmpxchg", "fence"):
    Engine.disp[_n] = getattr(Engine, "i_" + _n)
Engine.disp["call"] = Engine.disp["invoke"] = Engine.i_call
for _n in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "freeze"):
    Engine.disp[_n] = Engine.i_cast
for _n in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fcmp", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext", "shufflevector"):
    Engine.disp[_n] = Engine.i_fp


# ------------------------------------------------------------ state merging
def canon(eng, st, ints=None):
    """state up to renaming of objects, symbols and contexts; also returns the reachable set.
    With `ints` (a list) the integers stored in memory are left out of the form and listed there with their cells"""
    num, queue = {}, []
    cnum, cq = {}, []
    snum = {}
    out = []

    def onum(oid):
        o = st.objs.get(oid)
        if o is None or not o.alive:
            return -1
        if o.kind == "func":
            return o.name
        n = num.get(oid)
        if n is None:
            n = num[oid] = len(num)
            queue.append(oid)
        return n

    def xnum(cid):
        c = st.ctxs.get(cid)
        if c is None or c.status == "dead":
            return -1
        n = cnum.get(cid)
        if n is None:
            n = cnum[cid] = len(cnum)
            cq.append(cid)
        return n

    def sym(s):
        if s.kind == "base":
            return ("b", onum(s.obj))
        n = snum.get(s)
        if n is None:
            n = snum[s] = len(snum)
            if s.defn and s.defn[0] in ("aligndown", "floordiv"):
                return ("d", n, s.defn[0], val(s.defn[1]), s.defn[2])
        return ("s", n)

    def val(v):
        t = type(v)
        if t is int:
            return v
        if t is Lin:
            if len(v.terms) == 1 and v.terms[0][1] == 1:
                return (sym(v.terms[0][0]), v.c)
            return tuple((sym(s), k) for s, k in v.terms) + (v.c,)
        if t is Cmp:
            return (v.op, val(v.lin))
        if t is tuple:
            return tuple(val(x) for x in v)
        if v is UNDEF:
            return "?"
        return v if v is None or t is str else repr(v)

    for tid in sorted(st.threads):
        t = st.threads[tid]
        out.append((tid, xnum(t.ctx) if t.ctx else None, tuple(onum(x[0]) for x in t.caught), tuple(x[1] for x in t.caught), val(t.seg), val(t.tsan), t.done, val(t.winfiber), t.uncaught))
        for k in sorted(t.tls):
            out.append((k, onum(t.tls[k])))
        out.append(tuple((d[0], val(d[1])) for d in t.dtors))
    out.append(st.cur_t)
    out.append(tuple(sorted((k, val(v)) for k, v in st.opts.items())))
    out.append(val(st.asan))
    for g in sorted(st.globals):
        o = st.objs.get(st.globals[g])
        if o is not None and o.kind == "global" and not o.meta.get("const") and o.cells:
            out.append((g, onum(o.id)))
    qi = ci = 0
    while qi < len(queue) or ci < len(cq):
        if ci < len(cq):
            c = st.ctxs[cq[ci]]
            ci += 1
            rec = [c.status, onum(c.region) if c.region else None, onum(c.token) if c.token else None, val(tuple(sorted((k, v) for k, v in c.meta.items() if k != "note")))]
            for fr in c.frames:
                lv = live_after(fr.fn, fr.b, fr.i) if fr.b < len(fr.fn.blocks) else ()
                # the pending call's own result is not live yet
                ins = fr.fn.blocks[fr.b][fr.i]
                regs = tuple((r, val(fr.regs[r])) for r in sorted(lv) if r in fr.regs and r != ins[1])
                if "lp" in fr.regs and fr.fn.blocks[fr.b][fr.i][0] == "landingpad":
                    regs += (("lp", val(fr.regs["lp"])),)
                rec.append((fr.fn.name, fr.b, fr.i, fr.prev if fr.i == 0 else None, regs, tuple(onum(a) for a in fr.allocas), (fr.tag[0].__name__, val(tuple(x for x in fr.tag[1:]))) if fr.tag else None))
            out.append(tuple(rec))
            continue
        o = st.objs[queue[qi]]
        qi += 1
        cells = []
        for key in sorted(o.cells, key=lambda k: (len(k), repr([(s.name, n) for s, n in k]))):
            for off in sorted(o.cells[key]):
                n, v = o.cells[key][off]
                if ints is not None and type(v) is int and n >= 2:
                    ints.append((o.id, key, off, n, v))
                    cells.append((val(Lin(key, 0)) if key else 0, off, n, "#"))
                    continue
                cells.append((val(Lin(key, 0)) if key else 0, off, n, val(v)))
        meta = tuple(sorted((k, xnum(v) if k == "ctx" else onum(v) if k == "pool" else val(v)) for k, v in o.meta.items() if k not in ("gv", "note", "const", "stack")))
        meta += tuple(val(x[2]) for x in o.meta.get("stack", ()))
        out.append((o.kind, o.name if o.kind == "global" else None, val(o.size), tuple(cells), tuple(o.fills), meta))
    lv = []
    stray = 0
    for (oid, key, off), kind in st.live.items():
        if oid in num:
            lv.append((num[oid], val(Lin(key, 0)) if key else 0, off, kind))
        else:
            stray += 1
    out.append(tuple(sorted(lv, key=repr)))
    fs = []
    for f in st.facts:
        if type(f) is Lin and all((s in snum) or (s.kind == "base" and s.obj in num) for s, _ in f.terms):
            fs.append(val(f))
    out.append(tuple(sorted(set(fs), key=repr)))
    return tuple(out), num, cnum


def halves(lo, hi):
    """the value whose lower 32 bits are lo and whose upper ones are hi"""
    if type(lo) is Lin and type(hi) is Lin and len(lo.terms) == len(hi.terms) == 1 and lo.c == hi.c == 0:
        (s, k), (t, n) = lo.terms[0], hi.terms[0]
        if k == 1 and n == 1 << 32 and s.defn and s.defn[:2] == ("op", "trunc32") and t.defn and t.defn[0] == "floordiv" and t.defn[2] == n and s.defn[2] == (t.defn[1],):
            return t.defn[1]
    return None


WIDEN_DEPTH, WIDEN_VALUES = 8, 10


def widen(eng, st):
    """A counter in the code under analysis never repeats a state.  When states differ only in the integers they store, a cell that took many
    values stands for all values from then on: rarely taken branches on it are explored, and states merge again."""
    if eng.wsyms:
        # a global not touched yet counts as one whose counter has any value
        for nm, nk, off, n in eng.wcells:
            if nk:
                continue
            g = eng.tlscells.get(nm)
            if g or nm in eng.m.gv:
                o = st.objs[prov(eng.nat.tls_cell(eng, st, g)) if g else eng.gobj(st, nm)]
                if off not in o.cells.get((), {}):
                    fresh(eng, st, o.id, (), off, n)
        for o in list(st.objs.values()):
            if not o.alive:
                continue
            for key in list(o.cells):
                for off, (n, v) in list(o.cells[key].items()):
                    if type(v) is Lin and any(s in eng.wsyms for s, _ in v.terms) or type(v) is int and (o.name, len(key), off, n) in eng.wcells:
                        fresh(eng, st, o.id, key, off, n)
    if st.depth < WIDEN_DEPTH:
        return
    ints = []
    form, _, _ = canon(eng, st, ints)
    vecs = eng.shapes.setdefault(hash(form), [])
    vec = tuple(x[4] for x in ints)
    if vec in vecs:
        return
    vecs.append(vec)
    if len(vecs) < WIDEN_VALUES:
        return
    for i, (oid, key, off, n, v) in enumerate(ints):
        if len(set(x[i] for x in vecs if len(x) == len(vec))) >= WIDEN_VALUES:
            fresh(eng, st, oid, key, off, n)
            eng.stats["widened"] = eng.stats.get("widened", 0) + 1


def fresh(eng, st, oid, key, off, n):
    s = Sym("any value of %s+%s" % (st.objs[oid].name, off), "num", None, None, 1, 0, (1 << 8 * n) - 1)
    eng.wsyms.add(s)
    eng.wcells.add((st.objs[oid].name, len(key), off, n))
    st.w(oid).cells.setdefault(key, {})[off] = (n, L1(s))
