"""Symbolic affine values and the small polyhedral domain used to decide
placement and size obligations."""
from fractions import Fraction
import random

_n = [0]


class Sym:
    """an unknown number.  base symbols stand for the address of an object;
    derived symbols carry their definition (align-down / floor division)."""
    __slots__ = ("id", "name", "kind", "obj", "defn", "align", "lo", "hi")

    def __init__(self, name, kind="num", obj=None, defn=None, align=1, lo=None, hi=None):
        _n[0] += 1
        self.id = _n[0]
        self.name, self.kind, self.obj, self.defn, self.align, self.lo, self.hi = name, kind, obj, defn, align, lo, hi

    def __repr__(self):
        return "%s" % self.name

    def __lt__(self, o):
        return self.id < o.id


class Lin:
    """c + sum coef*sym, at least one symbol"""
    __slots__ = ("terms", "c", "_h")

    def __init__(self, terms, c=0):
        self.terms = terms
        self.c = c

    def __eq__(self, o):
        return type(o) is Lin and self.c == o.c and self.terms == o.terms

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.terms, self.c))

    def __repr__(self):
        s = "+".join(("%s" % a if k == 1 else "%d*%s" % (k, a)) for a, k in self.terms)
        return s + ("%+d" % self.c if self.c else "")


def L1(sym, c=0):
    return Lin(((sym, 1),), c)


def norm(d, c):
    t = tuple(sorted(((s, k) for s, k in d.items() if k), key=lambda x: x[0].id))
    if not t:
        return c
    return Lin(t, c)


def add(a, b):
    if type(a) is int:
        if type(b) is int:
            return a + b
        return Lin(b.terms, b.c + a)
    if type(b) is int:
        return Lin(a.terms, a.c + b)
    d = dict(a.terms)
    for s, k in b.terms:
        d[s] = d.get(s, 0) + k
    return norm(d, a.c + b.c)


def scale(a, k):
    if type(a) is int:
        return a * k
    if k == 0:
        return 0
    return Lin(tuple((s, c * k) for s, c in a.terms), a.c * k)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if type(b) is int:
        return add(a, -b)
    return add(a, neg(b))


def known_align(a):
    """(m, r): value == r mod m known"""
    if type(a) is int:
        return (1 << 40, a % (1 << 40))
    m = 1 << 40
    for s, k in a.terms:
        al = s.align * (abs(k) & -abs(k) if k else 1)
        g = s.align * abs(k)
        # largest power of two dividing align*k
        m = min(m, g & -g)
    return (m, a.c % m)


_memo = {}


def align_down(e, n):
    if type(e) is int:
        return e - e % n
    m, r = known_align(e)
    if m >= n:
        return add(e, -(r % n))
    key = ("ad", e, n)
    s = _memo.get(key)
    if s is None:
        obj = prov(e)
        s = _memo[key] = Sym("aligndown(%r,%d)" % (e, n), "num", obj, ("aligndown", e, n), n)
    return L1(s)


def floordiv(e, n):
    if type(e) is int:
        return e // n
    if all(k % n == 0 for _, k in e.terms):
        q = Lin(tuple((s, k // n) for s, k in e.terms), e.c // n)
        return q
    m, r = known_align(e)
    if n & (n - 1) == 0 and m >= n and all((s.align * k) % n == 0 for s, k in e.terms):
        pass
    key = ("fd", e, n)
    s = _memo.get(key)
    if s is None:
        s = _memo[key] = Sym("(%r)/%d" % (e, n), "num", None, ("floordiv", e, n), 1, 0, (1 << 47) // n if prov(e) is not None else None)
    return L1(s)


_opq = {}


def opaque(op, *args):
    """uninterpreted result, equal for equal operands"""
    try:
        key = (op,) + args
        s = _opq.get(key)
    except TypeError:
        key, s = None, None
    if s is None:
        s = Sym("%s(%s)" % (op, ",".join(repr(a) for a in args)), "num", None, ("op", op, args))
        if key is not None:
            _opq[key] = s
    return L1(s)


def prov(a):
    """object a value points into, or None"""
    if type(a) is not Lin:
        return None
    o = None
    for s, k in a.terms:
        if s.obj is not None:
            if k != 1 or o is not None:
                return None if o is None or k == 1 else None
            o = s.obj
    return o


def implied(sym):
    out = []
    if sym.kind == "base":
        out.append(L1(sym, -4096))
    if sym.lo is not None:
        out.append(sub(L1(sym), sym.lo))
    if sym.hi is not None:
        out.append(sub(sym.hi, L1(sym)))
    d = sym.defn
    if d:
        if d[0] == "aligndown":
            out.append(sub(d[1], L1(sym)))
            out.append(sub(L1(sym, d[2] - 1), d[1]))
            q = _memo.get(("fd", d[1], d[2]))
            if q is not None:   # the same rounding, written as a division
                out += [sub(L1(sym), scale(L1(q), d[2])), sub(scale(L1(q), d[2]), L1(sym))]
        elif d[0] == "floordiv":
            out.append(sub(d[1], scale(L1(sym), d[2])))
            out.append(sub(add(scale(L1(sym), d[2]), d[2] - 1), d[1]))
            q = _memo.get(("ad", d[1], d[2]))
            if q is not None:
                out += [sub(L1(q), scale(L1(sym), d[2])), sub(scale(L1(sym), d[2]), L1(q))]
    return [x for x in out if type(x) is Lin]


def closure(lins, facts):
    syms, todo, cons = set(), [], []
    for l in lins:
        todo += [s for s, _ in l.terms]
    used = set()
    while True:
        while todo:
            s = todo.pop()
            if s in syms:
                continue
            syms.add(s)
            for f in implied(s):
                cons.append(f)
                todo += [x for x, _ in f.terms if x not in syms]
        n = 0
        for i, f in enumerate(facts):
            if i not in used and any(s in syms for s, _ in f.terms):
                used.add(i)
                cons.append(f)
                n += 1
                todo += [x for x, _ in f.terms if x not in syms]
        if not todo and not n:
            return syms, cons


def infeasible(cons):
    """Fourier-Motzkin over the rationals: True if the conjunction of cons>=0 has no solution"""
    cs = []
    for c in cons:
        if type(c) is int:
            if c < 0:
                return True
            continue
        cs.append((dict(c.terms), c.c))
    while True:
        vars_ = {}
        for d, c in cs:
            for s, k in d.items():
                p, n = vars_.get(s, (0, 0))
                vars_[s] = (p + 1, n) if k > 0 else (p, n + 1)
        if not vars_:
            return any(c < 0 for _, c in cs)
        v = min(vars_, key=lambda s: (vars_[s][0] * vars_[s][1], s.id))
        pos, ng, rest = [], [], []
        for d, c in cs:
            k = d.get(v, 0)
            (pos if k > 0 else ng if k < 0 else rest).append((d, c))
        for d1, c1 in pos:
            for d2, c2 in ng:
                a, b = d1[v], -d2[v]
                d = {}
                for s, k in d1.items():
                    if s is not v:
                        d[s] = d.get(s, 0) + k * b
                for s, k in d2.items():
                    if s is not v:
                        d[s] = d.get(s, 0) + k * a
                d = {s: k for s, k in d.items() if k}
                c = c1 * b + c2 * a
                if not d:
                    if c < 0:
                        return True
                    continue
                rest.append((d, c))
        # drop duplicates, keep the strongest
        best = {}
        for d, c in rest:
            key = frozenset(d.items())
            if key not in best or c < best[key]:
                best[key] = c
        cs = [(dict(k), c) for k, c in best.items()]
        if len(cs) > 400:
            return False


_pc = {}


def prove_ge0(l, facts):
    if type(l) is int:
        return l >= 0
    key = (l, tuple(facts))
    r = _pc.get(key)
    if r is None:
        syms, cons = closure([l], facts)
        r = infeasible(cons + [add(neg(l), -1)])
        if not r:
            more = roundings(syms, cons)
            r = bool(more) and infeasible(cons + more + [add(neg(l), -1)])
        _pc[key] = r
    return r


def roundings(syms, cons):
    """how an address rounded down and a slightly greater one rounded down compare"""
    ad = sorted((s for s in syms if s.defn and s.defn[0] == "aligndown"), key=lambda s: s.id)
    out = []
    for a in ad:
        for b in ad:
            if a is b or a.defn[2] != b.defn[2]:
                continue
            c = sub(b.defn[1], a.defn[1])
            n = a.defn[2]
            if type(c) is not int or not 0 < c < n:
                continue
            out += [sub(L1(b), L1(a)), sub(L1(a, n), L1(b))]
            # nothing was rounded off the smaller one: both round to the same
            if infeasible(cons + [sub(a.defn[1], L1(a, 1))]):
                out.append(sub(L1(a), L1(b)))
            # something was, and the difference carries it over the next boundary
            elif c == n - 1 and infeasible(cons + [sub(L1(a), a.defn[1])]):
                out.append(sub(L1(b), L1(a, n)))
    return [x for x in out if type(x) is Lin]


def evaluate(l, env):
    if type(l) is int:
        return l
    t = l.c
    for s, k in l.terms:
        t += k * value_of(s, env)
    return t


M64 = (1 << 64) - 1


def eval_op(op, args, env):
    """value of a result the analysis does not describe by affine facts; None: it has no concrete meaning here"""
    if not all(type(a) in (int, Lin) for a in args):
        return None
    x = [evaluate(a, env) & M64 for a in args]
    if op == "mod64":
        return x[0]
    if op.startswith("trunc"):
        return x[0] & ((1 << int(op[5:])) - 1)
    if op == "mul":
        return x[0] * x[1] & M64
    if op == "udiv":
        return x[0] // x[1] if x[1] else None
    if op == "urem":
        return x[0] % x[1] if x[1] else None
    if op == "shl":
        return x[0] << x[1] & M64 if x[1] < 64 else None
    if op == "lshr":
        return x[0] >> x[1] if x[1] < 64 else None
    if op == "and":
        return x[0] & x[1]
    if op == "or":
        return x[0] | x[1]
    if op == "xor":
        return x[0] ^ x[1]
    return None


def value_of(s, env):
    v = env.get(s)
    if v is not None:
        return v
    d = s.defn
    if d:
        if d[0] == "aligndown":
            x = evaluate(d[1], env)
            v = x - x % d[2]
        elif d[0] == "floordiv":
            v = evaluate(d[1], env) // d[2]
        elif d[0] == "op":
            v = eval_op(d[1], d[2], env)
    if v is None:
        v = env["rnd"](s)
    env[s] = v
    return v


def witness(l, facts, tries=600, extra=()):
    """search a valuation of the input symbols that satisfies the facts and makes l negative"""
    if type(l) is int:
        return {} if l < 0 else None
    syms, cons = closure([l], facts)
    R = random.Random(7)
    hints = set()
    for f in list(facts) + [l]:
        if type(f) is Lin:
            hints.add(abs(f.c))
    hints = sorted(hints)

    def rnd(s):
        al = s.align
        if s.kind == "base":
            v = R.choice([0x7f0000000000, 0x10000000, 0x555500000000]) + al * R.randrange(0, 64)
            return v
        lo = evaluate(s.lo, {"rnd": rnd}) if s.lo is not None else 0
        c = R.random()
        if hints and c < 0.4:
            v = R.choice(hints) + R.choice([-1, 0, 1, 0, 7, 8, 15, 16])
        elif c < 0.6:
            v = lo + R.choice([0, 1, 2, 3, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 131072])
        else:
            v = lo + R.randrange(0, 1 << R.choice([4, 8, 13, 16, 20, 24, 31, 33, 40, 52, 62]))
        if v < lo:
            v = lo
        if s.hi is not None and type(s.hi) is int and v > s.hi:
            v = s.hi
        return v - v % al if (v - v % al) >= lo else v - v % al + al

    for _ in range(tries):
        env = {"rnd": rnd}
        try:
            if evaluate(l, env) < 0 and all(evaluate(f, env) >= 0 for f in cons):
                return {s: v for s, v in env.items() if s != "rnd" and not s.defn}
        except RecursionError:
            return None
    return None
