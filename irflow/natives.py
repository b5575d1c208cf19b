"""Models of what lies outside the analysed sources: the assembler switch
routines, ucontext, the C and C++ runtimes, sanitizer and split-stack hooks,
and the vf_* vocabulary of the client drivers."""
from engine import *
import engine as E

PATH_OK = "ok"


class Natives:
    def __init__(self, cfg=None):
        self.cfg = cfg or {}
        self.table = {}
        self.cache = {}
        for n in dir(self):
            if n.startswith("f_"):
                self.table[n[2:]] = getattr(self, n)
        t = self.table
        al = {
            "_Znwm": self.op_new, "_Znam": self.op_new, "_ZnwmRKSt9nothrow_t": self.op_new_nt, "_ZnamRKSt9nothrow_t": self.op_new_nt,
            "_ZnwmSt11align_val_t": self.op_new_al, "_ZnamSt11align_val_t": self.op_new_al,
            "_ZdlPv": self.op_delete, "_ZdaPv": self.op_delete, "_ZdlPvm": self.op_delete, "_ZdaPvm": self.op_delete,
            "_ZdlPvSt11align_val_t": self.op_delete, "_ZdlPvmSt11align_val_t": self.op_delete, "_ZdaPvSt11align_val_t": self.op_delete, "_ZdlPvRKSt9nothrow_t": self.op_delete,
            "_ZSt9terminatev": self.f_terminate_, "__clang_call_terminate": self.f_terminate_, "abort": self.f_terminate_, "_ZSt10unexpectedv": self.f_terminate_,
            "_ZNSt12system_errorC1ESt10error_codePKc": self.syserr_ctor, "_ZNSt12system_errorC2ESt10error_codePKc": self.syserr_ctor,
            "_ZNSt12system_errorC1ESt10error_codeRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE": self.syserr_ctor,
            "_ZNSt12system_errorD1Ev": self.nop, "_ZNSt12system_errorD2Ev": self.nop, "_ZNSt9bad_allocD1Ev": self.nop, "_ZNSt9bad_allocD2Ev": self.nop, "_ZNSt9exceptionD2Ev": self.nop, "_ZNSt9exceptionD1Ev": self.nop,
            "_ZNSt11logic_errorC1EPKc": self.exc_ctor, "_ZNSt13runtime_errorC1EPKc": self.exc_ctor, "_ZNSt13runtime_errorC2EPKc": self.exc_ctor, "_ZNSt11logic_errorC2EPKc": self.exc_ctor, "_ZNSt12length_errorC1EPKc": self.exc_ctor,
            "_ZNSt13runtime_errorD1Ev": self.nop, "_ZNSt11logic_errorD1Ev": self.nop, "_ZNSt13runtime_errorD2Ev": self.nop, "_ZNSt11logic_errorD2Ev": self.nop,
            "_ZNSt3_V215system_categoryEv": self.syscat, "_ZNSt3_V216generic_categoryEv": self.syscat,
            "_ZSt17__throw_bad_allocv": self.thrower("_ZTISt9bad_alloc"), "_ZSt25__throw_bad_function_callv": self.thrower("_ZTISt17bad_function_call"),
            "_ZSt28__throw_bad_array_new_lengthv": self.thrower("_ZTISt20bad_array_new_length"), "_ZSt20__throw_length_errorPKc": self.thrower("_ZTISt12length_error"),
            "_ZSt19__throw_logic_errorPKc": self.thrower("_ZTISt11logic_error"), "_ZSt20__throw_system_errori": self.thrower("_ZTISt12system_error"),
            "_ZSt18uncaught_exceptionv": self.f_uncaught, "_ZSt19uncaught_exceptionsv": self.f_uncaught_n,
            "__once_proxy": self.once_proxy, "memmove": self.f_memcpy,
            "_exit": self.f_exit, "exit": self.f_exit, "quick_exit": self.f_exit, "_Exit": self.f_exit,
            "_ZNSt8ios_base4InitC1Ev": self.nop, "_ZNSt8ios_base4InitD1Ev": self.nop,
        }
        t.update(al)

    # ------------------------------------------------------------ plumbing
    def init(self, eng, st):
        st.opts.update(self.cfg.get("opts", {}))
        ctx = st.ctx
        ctx.meta["main"] = True

    def ctors(self, eng):
        return []

    def lookup(self, eng, name):
        h = self.cache.get(name, 0)
        if h != 0:
            return h
        h = self.table.get(name)
        if h is None:
            h = self.fp_set if name in self.FPSET else self.fp_save if name in self.FPSAVE else self.fp_load if name in self.FPLOAD else self.fp_hold if name == "feholdexcept" else None
        if h is None and name.startswith("llvm."):
            h = self.intrinsic(name)
        if h is None:
            h = self.by_pattern(eng, name)
        self.cache[name] = h
        return h

    def intrinsic(self, n):
        if n.startswith("llvm.lifetime.start"):
            return self.life_start
        if n.startswith("llvm.lifetime.end"):
            return self.life_end
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            return self.f_memcpy
        if n.startswith("llvm.memset"):
            return self.f_memset
        if n.startswith("llvm.expect"):
            return lambda e, st, i, a: e.finish_call(st, a[0])
        if n.startswith("llvm.threadlocal.address"):
            return self.tls_addr
        if n.startswith("llvm.eh.typeid.for"):
            return self.typeid_for
        if n.startswith(("llvm.assume", "llvm.dbg", "llvm.invariant", "llvm.experimental.noalias", "llvm.prefetch", "llvm.donothing", "llvm.stackrestore", "llvm.va_")):
            return self.nop
        if n.startswith("llvm.stacksave"):
            return self.zero
        if n.startswith("llvm.launder") or n.startswith("llvm.strip"):
            return lambda e, st, i, a: e.finish_call(st, a[0])
        if n.startswith("llvm.trap") or n.startswith("llvm.ubsantrap"):
            return self.trap
        if n.startswith("llvm.objectsize"):
            return lambda e, st, i, a: e.finish_call(st, M64)
        if n.startswith(("llvm.umul.with.overflow", "llvm.uadd.with.overflow")):
            op = "mul" if "umul" in n else "add"

            def h(e, st, i, a):
                x, y = a[0], a[1]
                if type(x) is int and type(y) is int:
                    r = x * y if op == "mul" else x + y
                    return e.finish_call(st, (r & M64, int(r > M64)))
                r = add(x, y) if op == "add" else scale(x, y) if type(y) is int else scale(y, x) if type(x) is int else opaque("mul", x, y)
                e.finish_call(st, (r, Cmp("ge", add(r, -(1 << 64)))))
            return h
        if n.startswith(("llvm.usub.with.overflow", "llvm.sadd.with.overflow", "llvm.ssub.with.overflow", "llvm.smul.with.overflow")):
            return self.overflow(n)
        if n.startswith(("llvm.ctlz", "llvm.cttz", "llvm.ctpop", "llvm.bswap", "llvm.bitreverse", "llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.abs", "llvm.fshl", "llvm.fshr")):
            return self.bitop(n)
        if n.startswith(("llvm.ceil", "llvm.floor", "llvm.fabs", "llvm.round")):
            return lambda e, st, i, a: e.finish_call(st, ("fpop", n, 1))
        return None

    def overflow(self, n):
        bits = int(n.split(".i")[-1])
        op = n[5:9]

        def h(e, st, i, a):
            x, y = a[0], a[1]
            if type(x) is int and type(y) is int:
                if op[0] == "s":
                    x, y = (v - (1 << bits) if v >> (bits - 1) else v for v in (x, y))
                r = x + y if op[1:] == "add" else x - y if op[1:] == "sub" else x * y
                bad = not 0 <= r < 1 << bits if op[0] == "u" else not -(1 << (bits - 1)) <= r < 1 << (bits - 1)
                return e.finish_call(st, (r & ((1 << bits) - 1), int(bad)))
            if op == "usub":
                r = sub(x, y)
                return e.finish_call(st, (r, Cmp("lt", r)))
            if op == "smul":
                r = scale(x, y) if type(y) is int else scale(y, x) if type(x) is int else opaque("mul", x, y)
            else:
                r = add(x, y) if op == "sadd" else sub(x, y)
            e.finish_call(st, (r, Cmp("ge", add(r, -(1 << (bits - 1)))) if type(r) is Lin else 0))
        return h

    def bitop(self, n):
        f = n.split(".")[1]
        bits = int(n.split(".i")[-1])

        def sg(v):
            return v - (1 << bits) if v >> (bits - 1) else v

        def h(e, st, i, a):
            x = a[0]
            if f in ("umin", "umax", "smin", "smax"):
                y = a[1]
                if type(x) is int and type(y) is int:
                    k = sg if f[0] == "s" else (lambda v: v)
                    return e.finish_call(st, (min if f[1:] == "min" else max)(x, y, key=k))
                c = Cmp("ge", sub(x, y))
                t = e.truth(st, c)
                if t is None:
                    return self.branches(e, st, [(None, lambda s: (e.assume(s, c, True), e.finish_call(s, x if f[1:] == "max" else y))),
                                                 (None, lambda s: (e.assume(s, c, False), e.finish_call(s, y if f[1:] == "max" else x)))])
                return e.finish_call(st, x if t == (f[1:] == "max") else y)
            if type(x) is int and all(type(v) is int for v in a):
                if f == "ctlz":
                    r = bits - x.bit_length()
                elif f == "cttz":
                    r = (x & -x).bit_length() - 1 if x else bits
                elif f == "ctpop":
                    r = bin(x).count("1")
                elif f == "bswap":
                    r = int.from_bytes(x.to_bytes(bits // 8, "little"), "big")
                elif f == "bitreverse":
                    r = int(format(x, "0%db" % bits)[::-1], 2)
                elif f == "abs":
                    r = abs(sg(x)) & ((1 << bits) - 1)
                else:
                    s = a[2] % bits
                    r = ((x << s | a[1] >> (bits - s)) if f == "fshl" else (x << (bits - s) | a[1] >> s)) & ((1 << bits) - 1)
                return e.finish_call(st, r)
            if x is UNDEF:
                return e.finish_call(st, UNDEF)
            r = opaque(f, *a)
            if f in ("ctlz", "cttz", "ctpop"):
                st.facts += (r, sub(bits, r))
            e.finish_call(st, r)
        return h

    def by_pattern(self, eng, name):
        d = demangle(name)
        if d.startswith("boost::pool<") and not (self.cfg.get("opts") or {}).get("pool_real"):
            m = d.split(">::")[-1]
            if re.match(r"~pool\(", m):
                return self.pool_dtor
            if m.startswith("pool("):
                return self.pool_ctor
            if m.startswith(("malloc(", "ordered_malloc(")) and "malloc_need_resize" not in m:
                if m in ("malloc()", "ordered_malloc()"):
                    return self.pool_malloc
            if m in ("free(void*)", "ordered_free(void*)"):
                return self.pool_free
            if m.startswith(("purge_memory(", "release_memory(")):
                return self.pool_purge
        if "basic_ostream" in d or "std::ostream" in d:
            return self.ostream(eng, name, d)
        return None

    def nop(self, eng, st, ins, args):
        eng.finish_call(st, UNDEF)

    def zero(self, eng, st, ins, args):
        eng.finish_call(st, 0)

    def trap(self, eng, st, ins, args):
        raise Violation("unreachable", "control reaches a trap")

    def effect(self, st, what):
        if st.opts.get("noeffect"):
            raise Violation("effect", "%s on a path that must have no effect outside the program (%s)" % (what, st.opts.get("phase", "switch")))
        if st.opts.get("count_eff"):
            st.opts["eff:" + what] = st.opts.get("eff:" + what, 0) + 1

    def branches(self, eng, st, alts):
        """alts: list of (note, fn(state)); explores every one"""
        for note, f in alts[1:]:
            s2 = st.copy()
            eng.stats["forks"] += 1
            if note:
                eng.note(s2, note)
                if note.endswith("fails") and " of " not in note or note == "pool is exhausted":
                    s2.opts["refused"] = 1
            try:
                f(s2)
                eng.work.append(s2)
            except Violation as v:
                eng.report(s2, v.cat, v.msg)
            except PathEnd:
                pass
        note, f = alts[0]
        if note:
            eng.note(st, note)
        f(st)

    def site(self, eng, ins):
        l = eng.loc(ins)
        return "%s:%d" % (os.path.basename(l[0]), l[1]) if l[1] else ""

    # ------------------------------------------------------------ termination
    def terminate(self, eng, st, msg):
        eng.stats["terminated"] = eng.stats.get("terminated", 0) + 1
        if st.opts.get("term"):
            raise PathEnd()
        raise Violation("terminate", "std::terminate: " + msg)

    def f_terminate_(self, eng, st, ins, args):
        fr = st.ctx.frames[-1]
        self.terminate(eng, st, "reached in %s" % demangle(fr.fn.name))

    def f_exit(self, eng, st, ins, args):
        raise Violation("exit", "the process exits")

    def f___assert_fail(self, eng, st, ins, args):
        raise Violation("assert", "assertion in the library fails: %s" % self.cstr(eng, st, args[0]))

    def cstr(self, eng, st, p):
        if type(p) is not Lin:
            return "?"
        o = st.objs.get(prov(p))
        if o is None:
            return "?"
        out = []
        for i in range(400):
            v = eng.load_cell(st, o, (), p.c + i, 1)
            if type(v) is not int or v == 0:
                break
            out.append(chr(v))
        return "".join(out)

    def context_returned(self, eng, st, c):
        t = st.thread
        if not c.meta.get("main") and st.opts.get("may_return") and c.meta.get("made") == "make_fcontext":
            raise PathEnd()                 # _exit(0): decided on the assembler by C02
        if not c.meta.get("main"):
            raise Violation("context-exit", "the function of a context returned: control falls into finish / the process exits")
        if c.meta.get("owner", 0) != st.cur_t:
            raise Violation("context-exit", "the main context of thread %d finishes on thread %d" % (c.meta.get("owner", 0), st.cur_t))
        # run thread-exit destructors, last registered first
        if t.dtors:
            f, obj = t.dtors.pop()
            eng.push(st, f, [obj])
            return
        self.thread_end(eng, st)

    def thread_end(self, eng, st):
        t = st.thread
        if t.caught:
            raise Violation("exception-leak", "an exception is still being handled when the thread ends")
        tid = st.cur_t
        for n, oid in list(t.tls.items()):
            o = st.objs.get(oid)
        roots_gone = dict(t.tls)
        t.tls = {}
        for n, oid in roots_gone.items():
            if n.startswith("errno"):
                continue
            eng.kill_obj(st, oid, "end of thread")
        c = st.ctx
        c.status = "dead"
        t.done = True
        if tid == 0:
            for o in st.threads.values():
                if not o.done:
                    raise AnalysisError("driver ended while thread %d runs" % o.id)
            self.final(eng, st)
            raise PathEnd()
        self.leaks(eng, st, [st.cur_t])
        st.cur_t = 0
        # the spawning thread waits in vf_yield / vf_spawn: its call was completed when it handed over

    def leak_kinds(self):
        return ("heap", "mmap", "region", "chunk", "tsan", "segs", "exc", "winfiber")

    def leaks(self, eng, st, _=None):
        form, num, cnum = canon(eng, st)
        self.check_leaks(eng, st, num, cnum)

    def check_leaks(self, eng, st, num, cnum):
        for oid, o in st.objs.items():
            if o.alive and o.kind in ("heap", "mmap", "region", "chunk", "tsan", "segs", "winfiber") and oid not in num:
                raise Violation("leak", "%s is never released: nothing refers to it any more" % o.name)
        for cid, c in st.ctxs.items():
            if c.status == "suspended" and cid not in cnum:
                raise Violation("leak", "a suspended context (%s) can never be resumed or destroyed: nothing refers to it any more" % c.name)
        for k, kind in st.live.items():
            if k[0] not in num and st.objs.get(k[0]) is not None:
                raise Violation("not-destroyed", "an object (%s) is never destroyed" % kind)

    def final(self, eng, st):
        eng.stats["ends"] = eng.stats.get("ends", 0) + 1
        for oid, o in st.objs.items():
            if o.alive and o.kind in ("heap", "mmap", "region", "chunk", "tsan", "segs", "winfiber") and not o.meta.get("static"):
                raise Violation("leak", "%s is still allocated when the program ends and everything was destroyed" % o.name)
            if o.alive and o.kind == "exc" and o.meta.get("type"):
                raise Violation("leak", "an exception object (%s) is never released" % eng.tname(o.meta["type"]))
        for k, kind in st.live.items():
            raise Violation("not-destroyed", "an object (%s) in %s is never destroyed" % (kind, st.objs[k[0]].name if k[0] in st.objs else "?"))
        for c in st.ctxs.values():
            if c.status == "suspended":
                raise Violation("leak", "a context (%s) is still suspended when everything was destroyed" % c.name)

    # ------------------------------------------------------------ driver vocabulary
    def f_vf_choose(self, eng, st, ins, args):
        n = args[0]
        s = self.site(eng, ins)

        def alt(v):
            return ("%s choice %d" % (s, v), lambda st: eng.finish_call(st, v))
        self.branches(eng, st, [alt(v) for v in range(n)])

    def f_vf_check(self, eng, st, ins, args):
        msg = self.cstr(eng, st, args[1])
        eng.stats["checks"][msg] = eng.stats["checks"].get(msg, 0) + 1
        c = args[0]
        if c is UNDEF:
            raise Violation("rule", msg + " [value undefined]")
        t = eng.truth(st, c)
        if type(c) is int:
            t = c != 0
        elif type(c) is Lin:
            t = True if prov(c) is not None else None
        if t is None and type(c) is Cmp and c.op in ("ge", "lt"):
            l = c.lin if c.op == "ge" else add(neg(c.lin), -1)
            r = eng.require(st, l, "rule", msg)
            t = True if r or r is None else False
        elif t is None:
            if type(c) is Cmp:
                w = None
                lin = c.lin
                if c.op == "eq":
                    w = witness(add(lin, -1), st.facts) if False else (witness(lin, st.facts) or witness(neg(lin), st.facts))
                if w is not None or c.op == "ne":
                    if c.op == "ne":
                        # need a valuation with lin == 0
                        eng.stats["undecided"] += 1
                        eng.undecided[msg] = repr(c)
                        t = True
                    else:
                        raise Violation("rule", msg + " when " + ", ".join("%s=%s" % (s.name, hex(v)) for s, v in sorted(w.items(), key=lambda x: x[0].id)))
                else:
                    eng.stats["undecided"] += 1
                    eng.undecided[msg] = repr(c)
                    t = True
            else:
                eng.stats["undecided"] += 1
                eng.undecided[msg] = repr(c)
                t = True
        eng.stats["oblig"] += 1
        if not t:
            raise Violation("rule", msg)
        eng.finish_call(st, UNDEF)

    def f_vf_fail(self, eng, st, ins, args):
        raise Violation("rule", self.cstr(eng, st, args[0]))

    def f_vf_assume(self, eng, st, ins, args):
        c = args[0]
        t = eng.truth(st, c) if type(c) in (int, Cmp) else None
        if type(c) is int:
            t = c != 0
        if t is False:
            raise PathEnd()
        if t is None:
            eng.assume(st, c, True)
        eng.finish_call(st, UNDEF)

    def f_vf_end(self, eng, st, ins, args):
        raise PathEnd()

    def key(self, eng, st, p, what):
        o, key, off = eng.resolve(st, p, 1, what)
        return (o.id, key, off)

    def f_vf_born(self, eng, st, ins, args):
        k = self.key(eng, st, args[0], "construction of an object")
        kind = self.cstr(eng, st, args[1])
        if k in st.live:
            raise Violation("double-construct", "an object (%s) is constructed over a living object (%s)" % (kind, st.live[k]))
        st.live[k] = kind
        eng.finish_call(st, UNDEF)

    def f_vf_die(self, eng, st, ins, args):
        k = self.key(eng, st, args[0], "destruction of an object (%s)" % self.cstr(eng, st, args[1]))
        if k not in st.live:
            raise Violation("double-destroy", "an object (%s) is destroyed that is not alive (destroyed twice, or never constructed)" % self.cstr(eng, st, args[1]))
        del st.live[k]
        eng.finish_call(st, UNDEF)

    def f_vf_alive(self, eng, st, ins, args):
        k = self.key(eng, st, args[0], "use of an object (%s)" % self.cstr(eng, st, args[1]))
        if k not in st.live:
            raise Violation("use-after-destroy", "an object (%s) is used that is not alive" % self.cstr(eng, st, args[1]))
        eng.finish_call(st, UNDEF)

    def f_vf_count(self, eng, st, ins, args):
        kind = self.cstr(eng, st, args[0])
        eng.finish_call(st, sum(1 for v in st.live.values() if v == kind))

    def f_vf_point(self, eng, st, ins, args):
        eng.stats["points"] += 1
        # the call completes first so that the merged state is the loop head
        st.depth += 1
        eng.stats["depth"] = max(eng.stats.get("depth", 0), st.depth)
        widen(eng, st)
        form, num, cnum = canon(eng, st)
        self.check_leaks(eng, st, num, cnum)
        key = (args[0], hash(form))
        if key in eng.seen:
            eng.stats["merged"] += 1
            raise PathEnd()
        eng.seen.add(key)
        # drop garbage
        for oid in [i for i, o in st.objs.items() if i not in num and (not o.alive or o.kind in ("alloca", "token"))]:
            if st.objs[oid].kind == "alloca" and any(oid in f.allocas for c in st.ctxs.values() for f in c.frames):
                continue
            del st.objs[oid]
        for cid in [i for i, c in st.ctxs.items() if c.status == "dead"]:
            del st.ctxs[cid]
        st.trail = (st.trail, "-- point %s" % args[0])
        eng.finish_call(st, UNDEF)

    def f_vf_opt(self, eng, st, ins, args):
        k = self.cstr(eng, st, args[0])
        old = st.opts.get(k, 0)
        if args[1] == 0:
            st.opts.pop(k, None)
        else:
            st.opts[k] = args[1]
        eng.finish_call(st, old if type(old) is int else 0)

    def f_vf_get(self, eng, st, ins, args):
        v = st.opts.get(self.cstr(eng, st, args[0]), 0)
        eng.finish_call(st, v)

    def f_vf_phase(self, eng, st, ins, args):
        st.opts["phase"] = self.cstr(eng, st, args[0])
        eng.finish_call(st, UNDEF)

    def f_vf_note(self, eng, st, ins, args):
        eng.note(st, self.cstr(eng, st, args[0]))
        eng.finish_call(st, UNDEF)

    def f_vf_sym(self, eng, st, ins, args):
        """unknown number: name, low, high, multiple-of"""
        nm = self.cstr(eng, st, args[0])
        s = Sym(nm, "num", None, None, args[3] or 1, args[1], args[2])
        eng.finish_call(st, L1(s))

    def f_vf_region(self, eng, st, ins, args):
        self.effect(st, "stack allocation")
        size = args[0]
        o = eng.alloc(st, "region", size, "stack memory", args[1] if len(args) > 1 and type(args[1]) is int and args[1] else 16)
        eng.finish_call(st, L1(o.base))

    def f_vf_unregion(self, eng, st, ins, args):
        self.release(eng, st, args[0], ("region",), "stack deallocated")
        eng.finish_call(st, UNDEF)

    def f_vf_reserve(self, eng, st, ins, args):
        """memory from here up to the end of the region belongs to the caller"""
        o, key, off = eng.resolve(st, args[0], 0, "reserve")
        o = st.w(o.id)
        o.meta["reserved"] = args[0]
        eng.finish_call(st, UNDEF)

    # ------------------------------------------------------------ floating-point control state
    FPSET = ("fesetround", "fesetmode", "feenableexcept", "fedisableexcept", "_control87", "_controlfp", "__control87_2", "fpsetround", "fpsetmask", "llvm.set.rounding", "llvm.set.fpmode", "llvm.reset.fpmode", "llvm.reset.fpenv")
    FPSAVE = ("fegetenv", "fegetmode", "llvm.x86.sse.stmxcsr")
    FPLOAD = ("fesetenv", "feupdateenv", "llvm.x86.sse.ldmxcsr")

    def fp_new(self, eng, st, ins):
        """another, unknown control word: one per place that sets it"""
        sites = self.__dict__.setdefault("fp_sites", {})
        st.opts["fp"] = sites.setdefault(str(self.site(eng, ins)), len(sites) + 1)

    def fp_set(self, eng, st, ins, args):
        self.fp_new(eng, st, ins)
        eng.finish_call(st, 0)

    def fp_save(self, eng, st, ins, args):
        st.opts["fps:%r" % (args[0],)] = st.opts.get("fp", 0)
        eng.finish_call(st, 0)

    def fp_hold(self, eng, st, ins, args):
        st.opts["fps:%r" % (args[0],)] = st.opts.get("fp", 0)
        self.fp_new(eng, st, ins)
        eng.finish_call(st, 0)

    def fp_load(self, eng, st, ins, args):
        k = "fps:%r" % (args[0],) if args else None
        if k in st.opts:
            st.opts["fp"] = st.opts[k]
        else:
            self.fp_new(eng, st, ins)
        eng.finish_call(st, 0)

    def f_vf_fp(self, eng, st, ins, args):
        eng.finish_call(st, st.opts.get("fp", 0))

    def f_vf_reserve_below(self, eng, st, ins, args):
        """memory below here belongs to the caller; no context may run on it"""
        o, key, off = eng.resolve(st, args[0], 0, "reserve")
        st.w(o.id).meta["reserved_lo"] = args[0]
        eng.finish_call(st, UNDEF)

    def f_vf_obj_size(self, eng, st, ins, args):
        """extent of the storage a pointer belongs to"""
        o, key, off = eng.resolve(st, args[0], 0, "query")
        eng.finish_call(st, o.size)

    def f_vf_obj_off(self, eng, st, ins, args):
        o, key, off = eng.resolve(st, args[0], 0, "query")
        eng.finish_call(st, sub(args[0], L1(o.base)))

    def f_vf_same_obj(self, eng, st, ins, args):
        a, b = prov(args[0]), prov(args[1])
        eng.finish_call(st, int(a is not None and a == b))

    def f_vf_obj_is(self, eng, st, ins, args):
        """is the storage alive and of this kind"""
        o = st.objs.get(prov(args[0])) if type(args[0]) is Lin else None
        eng.finish_call(st, int(o is not None and o.alive and o.kind == self.cstr(eng, st, args[1])))

    def f_vf_obj_meta(self, eng, st, ins, args):
        o = st.objs.get(prov(args[0])) if type(args[0]) is Lin else None
        v = o.meta.get(self.cstr(eng, st, args[1]), 0) if o is not None else 0
        eng.finish_call(st, v)

    def f_vf_kind_count(self, eng, st, ins, args):
        k = self.cstr(eng, st, args[0])
        eng.finish_call(st, sum(1 for o in st.objs.values() if o.alive and o.kind == k))

    def f_vf_on_stack_of(self, eng, st, ins, args):
        """region of the context that runs now (0 for a thread's own stack)"""
        c = st.ctx
        eng.finish_call(st, L1(st.objs[c.region].base) if c.region in st.objs else 0)

    def mark(self, eng, st, c):
        m = c.meta.get("mark")
        if m is None:
            o = eng.alloc(st, "mark", 1, "identity of %s" % c.name)
            m = c.meta["mark"] = L1(o.base)
        return m

    def f_vf_self(self, eng, st, ins, args):
        """identity of the running context"""
        eng.finish_call(st, self.mark(eng, st, st.ctx))

    def f_vf_denotes(self, eng, st, ins, args):
        """identity of the suspended context a handle denotes, null if none"""
        p = eng.read64(st, args[0], 0, 8, "handle")
        eng.finish_call(st, self.denoted(eng, st, p))

    def denoted(self, eng, st, p):
        if type(p) is not Lin:
            return 0
        o = st.objs.get(prov(p))
        if o is None or not o.alive:
            return 0
        if o.kind == "token":
            return self.mark(eng, st, st.ctxs[o.meta["ctx"]])
        for key, cells in o.cells.items():
            for off, (n, v) in cells.items():
                if type(v) is Lin and n == 8:
                    t = st.objs.get(prov(v))
                    if t is not None and (t.kind == "token" or t.kind == "winfiber" and st.ctxs[t.meta["ctx"]].status in ("suspended", "fresh")) and t.alive:
                        a = L1(o.base, off) if key == () else Lin(key, off)
                        if prov(a) != o.id:
                            a = add(a, L1(o.base))
                        d = sub(a, p)
                        if type(d) is int and 0 <= d < 1400:
                            return self.mark(eng, st, st.ctxs[t.meta["ctx"]])
        return 0

    def f_vf_handled(self, eng, st, ins, args):
        eng.finish_call(st, len(st.thread.caught))

    # threads ------------------------------------------------------
    def f_vf_spawn(self, eng, st, ins, args):
        """create a thread; it runs when vf_yield names it"""
        tid = max(st.threads) + 1
        t = Thread(tid)
        t.winfiber = 0
        c = Ctx(new_id(), "main context of thread %d" % tid)
        c.meta["main"] = True
        c.meta["owner"] = tid
        t.ctx = c.id
        st.ctxs[c.id] = c
        st.threads[tid] = t
        eng.finish_call(st, tid)
        cur = st.cur_t
        st.cur_t = tid
        fn = st.objs[prov(args[0])].name
        eng.push(st, fn, [args[1]])
        st.cur_t = cur

    def f_vf_yield(self, eng, st, ins, args):
        tid = args[0]
        t = st.threads.get(tid)
        if t is None or t.done:
            eng.finish_call(st, 0)
            return
        eng.finish_call(st, 1)
        st.cur_t = tid

    def f_vf_done(self, eng, st, ins, args):
        eng.finish_call(st, int(st.threads[args[0]].done))

    def f_vf_thread(self, eng, st, ins, args):
        eng.finish_call(st, st.cur_t)

    # ------------------------------------------------------------ memory
    def life_start(self, eng, st, ins, args):
        p, n = args[1], args[0]
        o = st.objs.get(prov(p)) if type(p) is Lin else None
        if o is not None:
            o = st.w(o.id)
            if p == L1(o.base):
                o.cells, o.fills = {}, []
        eng.finish_call(st, UNDEF)

    def life_end(self, eng, st, ins, args):
        p = args[1]
        o = st.objs.get(prov(p)) if type(p) is Lin else None
        if o is not None:
            t = eng.tracked_in(st, o.id)
            if t:
                kinds = ", ".join(sorted(set(st.live[k] for k in t)))
                for k in t:
                    del st.live[k]
                raise Violation("not-destroyed", "scope of '%s' ends while an object in it (%s) has not been destroyed" % (o.name, kinds))
            o = st.w(o.id)
            if p == L1(o.base):
                o.cells, o.fills = {}, []
        eng.finish_call(st, UNDEF)

    def f_memcpy(self, eng, st, ins, args):
        eng.memcpy(st, args[0], args[1], args[2])
        eng.finish_call(st, args[0])

    def f_memset(self, eng, st, ins, args):
        eng.memset(st, args[0], args[1], args[2])
        eng.finish_call(st, args[0])

    def f_strlen(self, eng, st, ins, args):
        eng.finish_call(st, len(self.cstr(eng, st, args[0])))

    def new_heap(self, eng, st, size, how, kind="heap", align=16, name=None):
        o = eng.alloc(st, kind, size, name or ("memory from %s" % how), align)
        o.meta["how"] = how
        return L1(o.base)

    def op_new(self, eng, st, ins, args):
        self.effect(st, "dynamic memory allocation")
        n = args[0]

        def ok(s):
            p = self.new_heap(eng, s, n, "operator new")
            eng.finish_call(s, p)
        alts = [(None, ok)]
        if st.opts.get("fail_new"):
            alts.append(("%s operator new throws bad_alloc" % self.site(eng, ins), lambda s: self.throw_std(eng, s, "_ZTISt9bad_alloc")))
        self.branches(eng, st, alts)

    def op_new_al(self, eng, st, ins, args):
        self.effect(st, "dynamic memory allocation")
        eng.finish_call(st, self.new_heap(eng, st, args[0], "operator new", align=args[1] if type(args[1]) is int else 16))

    def op_new_nt(self, eng, st, ins, args):
        self.effect(st, "dynamic memory allocation")

        def ok(s):
            eng.finish_call(s, self.new_heap(eng, s, args[0], "operator new"))
        alts = [(None, ok)]
        if st.opts.get("fail_new"):
            alts.append(("operator new fails", lambda s: eng.finish_call(s, 0)))
        self.branches(eng, st, alts)

    def op_delete(self, eng, st, ins, args):
        if args[0] == 0:
            eng.finish_call(st, UNDEF)
            return
        self.effect(st, "dynamic memory release")
        self.release(eng, st, args[0], ("heap",), "deleted", "operator new")
        eng.finish_call(st, UNDEF)

    def f_malloc(self, eng, st, ins, args):
        self.effect(st, "dynamic memory allocation")
        n = args[0]

        def ok(s):
            eng.finish_call(s, self.new_heap(eng, s, n, "malloc"))
        alts = [(None, ok)]
        if st.opts.get("fail_malloc"):
            alts.append(("malloc fails", lambda s: eng.finish_call(s, 0)))
        if st.opts.get("wrap"):
            alts = self.limited(eng, alts, 0, n)
        self.branches(eng, st, alts)

    def f_calloc(self, eng, st, ins, args):
        self.effect(st, "dynamic memory allocation")
        n = args[0] * args[1] if type(args[0]) is int and type(args[1]) is int else scale(args[1], args[0]) if type(args[0]) is int else scale(args[0], args[1]) if type(args[1]) is int else opaque("mul", args[0], args[1])

        def ok(s):
            p = self.new_heap(eng, s, n, "malloc")
            eng.finish_call(s, p)
        alts = [(None, ok)]
        if st.opts.get("fail_malloc"):
            alts.append(("calloc fails", lambda s: eng.finish_call(s, 0)))
        self.branches(eng, st, alts)

    def f_posix_memalign(self, eng, st, ins, args):
        self.effect(st, "dynamic memory allocation")

        def ok(s):
            eng.write64(s, args[0], self.new_heap(eng, s, args[2], "malloc", align=args[1] if type(args[1]) is int else 16))
            eng.finish_call(s, 0)
        alts = [(None, ok)]
        if st.opts.get("fail_malloc"):
            alts.append(("posix_memalign fails", lambda s: eng.finish_call(s, 12)))
        self.branches(eng, st, alts)

    def f_aligned_alloc(self, eng, st, ins, args):
        self.f_malloc(eng, st, ins, [args[1]])

    def f_free(self, eng, st, ins, args):
        if args[0] == 0:
            eng.finish_call(st, UNDEF)
            return
        self.effect(st, "dynamic memory release")
        self.release(eng, st, args[0], ("heap",), "freed", "malloc")
        eng.finish_call(st, UNDEF)

    def limited(self, eng, alts, fails, n):
        """with modular arithmetic on: no allocation of 2^47 bytes or more succeeds, no mapping of 0 bytes"""
        def wrapok(f):
            def g(s):
                if type(n) is Lin:
                    t = eng.truth(s, Cmp("ge", add(n, -(1 << 47))))
                    if t is True:
                        raise PathEnd()
                    if t is None:
                        s.facts += (add(neg(n), (1 << 47) - 1),)
                elif n >= 1 << 47:
                    raise PathEnd()
                f(s)
            return g
        return [(a, wrapok(f)) if i == 0 else (a, f) for i, (a, f) in enumerate(alts)]

    def release(self, eng, st, p, kinds, why, how=None):
        if type(p) is not Lin:
            raise Violation("bad-free", "%s: an address that was never allocated (%s)" % (why, "null" if p == 0 else p))
        oid = prov(p)
        o = st.objs.get(oid)
        if o is None:
            raise Violation("bad-free", "%s: an address that is not from an allocation (%r)" % (why, p))
        if not o.alive:
            raise Violation("double-free", "%s: %s was already released (%s)" % (why, o.name, o.dead_by))
        if o.kind not in kinds or (how and o.meta.get("how") != how):
            raise Violation("bad-free", "%s through the wrong function: it is %s" % (why, o.name))
        d = sub(p, L1(o.base))
        if d != 0 and not (eng.truth(st, Cmp("eq", d)) is True if type(d) is Lin else False):
            raise Violation("bad-free", "%s with an address that is not the start of %s (offset %r)" % (why, o.name, d))
        self.free_storage(eng, st, oid, why)

    def free_storage(self, eng, st, oid, why):
        o = st.objs[oid]
        self.vg_free(st, oid)
        for cid, c in list(st.ctxs.items()):
            if c.region == oid and c.status != "dead":
                self.kill_ctx(eng, st, c, why)
        eng.kill_obj(st, oid, why)

    # valgrind's registered stacks
    def f_vf_vg_register(self, eng, st, ins, args):
        a, b = args[:2]
        oa = prov(a) if type(a) is Lin else None
        ob = prov(b) if type(b) is Lin else None
        o = st.objs.get(oa)
        if o is None or oa != ob or not o.alive:
            raise Violation("valgrind", "C15: a registered stack is the memory of one live allocation")
        vg = st.opts.get("vg", ())
        if any(prov(x[1]) == oa for x in vg):
            raise Violation("valgrind", "C15: a stack is registered once (%s is registered already)" % o.name)
        n = st.opts.get("vgn", 0)     # valgrind's ids start at 0
        st.opts["vgn"] = n + 1
        st.opts["vg"] = vg + ((n, a, b),)
        eng.finish_call(st, n)

    def f_vf_vg_deregister(self, eng, st, ins, args):
        vg = st.opts.get("vg", ())
        hit = [x for x in vg if x[0] == args[0]]
        if not hit:
            raise Violation("valgrind", "C15: a stack is deregistered once, with the id its registration returned (got %r)" % (args[0],))
        st.opts["vg"] = tuple(x for x in vg if x is not hit[0])
        if not st.opts["vg"]:
            del st.opts["vg"]
            st.opts.pop("vgn", None)
        eng.finish_call(st, UNDEF)

    def f_vf_vg_covers(self, eng, st, ins, args):
        r = 0

        def eq(x, y):
            d = sub(x, y)
            return d == 0 if type(d) is int else eng.truth(st, Cmp("eq", d)) is True
        for n, a, b in st.opts.get("vg", ()):
            if n == args[0] and (eq(a, args[1]) and eq(b, args[2]) or eq(b, args[1]) and eq(a, args[2])):
                r = 1
        eng.finish_call(st, r)

    def vg_free(self, st, oid):
        for x in st.opts.get("vg", ()):
            if prov(x[1]) == oid:
                raise Violation("valgrind", "C15: a stack is deregistered before its memory is released")

    def kill_ctx(self, eng, st, c, why):
        if c.status == "running":
            raise Violation("stack-in-use", "%s while code of %s is still running on it" % (why, c.name))
        if st.opts.get("asan") and c.status == "suspended" and c.meta.get("asan_null") != 1:
            raise Violation("asan", "stack of %s released although its last switch did not announce that its fake stack may go" % c.name)
        frames = c.frames
        c.frames = []
        c.status = "dead"
        if c.token in st.objs:
            t = st.w(c.token)
            t.alive = False
            t.dead_by = "its context's stack was released"
        for fr in reversed(frames):
            for a in fr.allocas:
                if a in st.objs:
                    tr = eng.tracked_in(st, a)
                    if tr:
                        kinds = ", ".join(sorted(set(st.live[k] for k in tr)))
                        raise Violation("not-unwound", "%s although an object (%s) on that stack, in %s, has not been destroyed" % (why, kinds, demangle(fr.fn.name)))
                    del st.objs[a]

    def f_mmap(self, eng, st, ins, args):
        self.effect(st, "system call mmap")
        addr, n, prot, flags = args[0], args[1], args[2], args[3]
        if addr != 0 and type(flags) is int and flags & 0x10:
            # MAP_FIXED over existing memory: same storage
            def same(s):
                # whole pages are replaced, whatever the length says
                page = s.opts.get("page") or 4096
                d = align_down(add(n, page - 1), page)
                o, k, off = eng.resolve(s, addr, d, "MAP_FIXED mapping (whole pages)")
                o = s.w(o.id)
                o.meta["remapped"] = 1
                eng.finish_call(s, addr)
            alts = [(None, same)]
        else:
            def ok(s):
                o = eng.alloc(s, "mmap", n, "mapping", 4096 if not s.opts.get("page") else s.opts["page"])
                o.meta["prot"] = prot
                o.meta["flags"] = flags
                eng.finish_call(s, L1(o.base))
            alts = [(None, ok)]
        if st.opts.get("fail_mmap"):
            alts.append(("mmap fails", lambda s: eng.finish_call(s, M64)))
        if st.opts.get("wrap") or n == 0:
            alts = self.limited(eng, alts, M64, n)
        if n == 0:
            alts = [("mmap of nothing fails", lambda s: eng.finish_call(s, M64))]
        self.branches(eng, st, alts)

    def f_munmap(self, eng, st, ins, args):
        self.effect(st, "system call munmap")
        p, n = args[0], args[1]
        if type(p) is not Lin or prov(p) not in st.objs:
            raise Violation("bad-free", "munmap of an address that was never mapped")
        o = st.objs[prov(p)]
        if not o.alive:
            raise Violation("double-free", "munmap: %s was already released (%s)" % (o.name, o.dead_by))
        if o.kind != "mmap":
            raise Violation("bad-free", "munmap of %s" % o.name)
        if o.meta.get("ss") and st.ctx.meta.get("ss") == o.id:
            raise Violation("use-after-free", "a context unmaps the shadow stack it runs on")
        d = sub(p, L1(o.base))
        e = sub(n, o.size)
        if not self.is_zero(eng, st, d):
            raise Violation("bad-free", "munmap does not start at the start of the mapping (offset %r)" % (d,))
        if not self.is_zero(eng, st, e):
            raise Violation("bad-free", "munmap length differs from the mapped length by %r" % (e,))
        self.free_storage(eng, st, o.id, "unmapped")
        eng.finish_call(st, 0)

    def is_zero(self, eng, st, d):
        if type(d) is int:
            return d == 0
        if eng.truth(st, Cmp("eq", d)) is True:
            return True
        w = witness(d, st.facts) or witness(neg(d), st.facts)
        if w is not None:
            return False
        eng.stats["undecided"] += 1
        return True

    def f_mprotect(self, eng, st, ins, args):
        self.effect(st, "system call mprotect")
        p, n, prot = args

        def ok(s):
            o, k, off = eng.resolve(s, p, 0, "mprotect")
            eng.require(s, sub(o.size, add(sub(p, L1(o.base)), n)), "out-of-bounds", "mprotect beyond the end of %s" % o.name)
            o = s.w(o.id)
            if o.meta.get("prot") == 0 and prot != 0:
                # a mapping made inaccessible as a whole of which the upper part is opened
                if "guard_len" in o.meta or self.is_zero(eng, s, sub(add(sub(p, L1(o.base)), n), o.size)) is not True:
                    raise AnalysisError("mprotect opens part of an inaccessible mapping")
                o.meta["prot"] = prot
                o.meta["guard_prot"] = 0
                o.meta["guard_off"] = 0
                o.meta["guard_len"] = sub(p, L1(o.base))
                eng.finish_call(s, 0)
                return
            o.meta["guard_prot"] = prot
            o.meta["guard_off"] = sub(p, L1(o.base))
            pg = s.opts.get("page", 4096)
            o.meta["guard_len"] = (n + pg - 1) // pg * pg if type(n) is int and type(pg) is int else n
            eng.finish_call(s, 0)
        alts = [(None, ok)]
        pg = st.opts.get("page", 4096)
        if type(p) is Lin and prov(p) in st.objs and type(pg) is int:
            m, r = known_align(p)
            if m >= pg and r % pg:
                alts = [("mprotect of an unaligned address fails", lambda s: eng.finish_call(s, 0xffffffff))]
        if st.opts.get("fail_mprotect"):
            alts.append(("mprotect fails", lambda s: eng.finish_call(s, 0xffffffff)))
        self.branches(eng, st, alts)

    def f_sysconf(self, eng, st, ins, args):
        self.effect(st, "system call sysconf")
        st.opts["n_sysconf"] = st.opts.get("n_sysconf", 0) + 1 if st.opts.get("count") else 0
        if args[0] in (30, ):
            eng.finish_call(st, st.opts.get("page", 4096))
        else:
            k = "sysconf_%s" % args[0]
            v = st.opts.get(k)
            if v is None:
                # the same answer every time; what is asked for here are sizes of signal stacks
                v = st.opts[k] = L1(Sym("sysconf(%s)" % args[0], lo=1, hi=131072)) if args[0] in (249, 250) else L1(Sym("sysconf(%s)" % args[0]))
            eng.finish_call(st, v)

    def f_getpagesize(self, eng, st, ins, args):
        eng.finish_call(st, st.opts.get("page", 4096))

    def f_getrlimit(self, eng, st, ins, args):
        self.effect(st, "system call getrlimit")
        if args[0] != 3:
            st.opts["rlim_other"] = 1
            eng.write64(st, args[1], L1(Sym("other limit (soft)")))
            eng.write64(st, args[1], L1(Sym("other limit")), 8)
            eng.finish_call(st, 0)
            return
        cur, mx = st.opts.get("rlim_cur", M64), st.opts.get("rlim_max", M64)

        def ok(s):
            eng.write64(s, args[1], cur)
            eng.write64(s, args[1], mx, 8)
            eng.finish_call(s, 0)
        alts = [(None, ok)]
        if st.opts.get("fail_getrlimit"):
            alts.append(("getrlimit fails", lambda s: eng.finish_call(s, 0xffffffff)))
        self.branches(eng, st, alts)

    f_getrlimit64 = f_getrlimit

    def f_syscall(self, eng, st, ins, args):
        self.effect(st, "system call")
        if st.opts.get("cet") and args[0] in (451, 453):
            n = args[2]

            def ok(s):
                low = align_down(n, 8)
                if not self.is_zero(eng, s, sub(n, low)):
                    eng.finish_call(s, M64)       # EINVAL
                    return
                o = eng.alloc(s, "mmap", n, "shadow stack", 4096)
                o.meta["ss"] = 1
                o.meta["token"] = 1 if type(args[3]) is int and args[3] & 1 else 0
                eng.finish_call(s, L1(o.base))
            alts = [(None, ok)]
            if st.opts.get("fail_shstk"):
                alts.append(("map_shadow_stack fails", lambda s: eng.finish_call(s, M64)))
            self.branches(eng, st, alts)
            return
        eng.finish_call(st, 0)

    def bind_shadow(self, eng, st, c, sp, what):
        """make_fcontext takes the top of the new shadow stack from below the top of the stack"""
        v = eng.read64(st, add(sp, -8))
        cand = [o for o in st.objs.values() if o.meta.get("ss") and o.base in [s for s, _ in v.terms]] if type(v) is Lin else []
        if len(cand) != 1:
            raise Violation("shadow-stack", "%s: no shadow stack is passed to the new context" % what)
        o = cand[0]
        if not o.alive:
            raise Violation("use-after-free", "%s: the shadow stack was already unmapped" % what)
        if not o.meta["token"]:
            raise Violation("shadow-stack", "%s: the shadow stack was mapped without a restore token" % what)
        if not self.is_zero(eng, st, sub(v, add(L1(o.base), o.size))):
            raise Violation("shadow-stack", "%s: the shadow stack pointer is not the end of the mapping" % what)
        for c2 in st.ctxs.values():
            if c2.meta.get("ss") == o.id and c2.id != c.id:
                raise Violation("shadow-stack", "%s: two contexts share one shadow stack" % what)
        c.meta["ss"] = o.id

    def f_gettid(self, eng, st, ins, args):
        self.effect(st, "system call")
        eng.finish_call(st, st.cur_t + 100)

    f_getpid = f_gettid

    def lockfn(self, eng, st, ins, args):
        self.effect(st, "lock operation")
        eng.finish_call(st, 0)

    f_pthread_rwlock_rdlock = f_sem_wait = f_sem_post = lockfn

    def f_pthread_mutex_lock(self, eng, st, ins, args):
        self.held(st, 1)
        self.lockfn(eng, st, ins, args)

    f_pthread_rwlock_wrlock = f_pthread_mutex_lock

    def f_pthread_mutex_unlock(self, eng, st, ins, args):
        self.held(st, -1)
        self.lockfn(eng, st, ins, args)

    f_pthread_rwlock_unlock = f_pthread_mutex_unlock
    f_sched_yield = f_usleep = f_nanosleep = f_pthread_sigmask = f_sigprocmask = lockfn

    def syscall_generic(self, eng, st, ins, args):
        self.effect(st, "system call")
        eng.finish_call(st, 0)

    def f_malloc_usable_size(self, eng, st, ins, args):
        o = st.objs.get(prov(args[0])) if type(args[0]) is Lin else None
        if o is None:
            return eng.finish_call(st, 0)
        s = L1(Sym("usable size of %s" % o.name, "num", None, None, 1, 0, 1 << 47))
        st.facts += (sub(s, o.size),)
        eng.finish_call(st, s)

    def f_rand(self, eng, st, ins, args):
        eng.finish_call(st, L1(Sym("rand()", "num", None, None, 1, 0, (1 << 31) - 1)))

    f_random = f_rand

    def f_pthread_self(self, eng, st, ins, args):
        eng.finish_call(st, 0x7f0000001000 + 0x1000000 * st.cur_t)

    def f_gettid(self, eng, st, ins, args):
        eng.finish_call(st, 1000 + st.cur_t)

    def f_getpid(self, eng, st, ins, args):
        eng.finish_call(st, 999)

    f_write = f_read = f_getenv = f_clock_gettime = f_puts = f_printf = f_fprintf = f_madvise = f_mlock = f_fputs = f_fflush = syscall_generic

    def f_pthread_once(self, eng, st, ins, args):
        v = eng.read64(st, args[0], 0, 4)
        if v == 2:
            eng.finish_call(st, 0)
            return
        eng.write64(st, args[0], 2, 0, 4)
        st.opts["once"] = 1     # the one thread that runs the function is synchronised with everyone who returns from call_once
        fn = st.objs[prov(args[1])].name
        if fn == "__once_proxy":
            self.once_proxy(eng, st, ins, args)
            return
        eng.push(st, fn, [], (lambda e, s, v: 0,))

    def once_proxy(self, eng, st, ins, args):
        p = self.tls_cell(eng, st, "_ZSt11__once_call")
        o, k, off = eng.resolve(st, p, 8, "once")
        f = eng.load_cell(st, o, k, off, 8)
        eng.push(st, st.objs[prov(f)].name, [], (lambda e, s, v: 0,))

    def tls_cell(self, eng, st, name):
        t = st.thread
        oid = t.tls.get(name)
        if oid is None:
            g = st.objs[eng.gobj(st, name)]
            o = eng.alloc(st, "tls", g.size, "thread-local %s" % demangle(name), 16)
            o.cells = {k: dict(v) for k, v in g.cells.items()}
            o.fills = list(g.fills) or [(0, g.size, 0)]
            o.meta["thread"] = st.cur_t
            t.tls[name] = oid = o.id
            eng.tlscells[o.name] = name
        return L1(st.objs[oid].base)

    def tls_addr(self, eng, st, ins, args):
        g = st.objs[prov(args[0])]
        if g.kind == "tls":
            return eng.finish_call(st, args[0])
        p = self.tls_cell(eng, st, g.name)
        eng.finish_call(st, add(p, args[0].c))

    def f___errno_location(self, eng, st, ins, args):
        eng.finish_call(st, self.errno_of(eng, st))

    def errno_of(self, eng, st):
        t = st.thread
        oid = t.tls.get("errno")
        if oid is None:
            o = eng.alloc(st, "tls", 4, "errno", 4)
            o.meta["thread"] = st.cur_t
            o.cells = {(): {0: (4, 5)}}
            t.tls["errno"] = oid = o.id
        return L1(st.objs[oid].base)

    def atomic(self, eng, st, p, op, v, order, ins):
        o, key, off = eng.resolve(st, p, 1, "atomic")
        if st.opts.get("refcnt"):
            cells = o.meta.get("ast", ())
            if op in ("add", "sub") and (key, off) in cells:
                raise Violation("ordering", "a count is updated atomically here but stored non-atomically (load, then store) elsewhere: concurrent updates are lost")
            if op in ("add", "sub") and (key, off) not in o.meta.get("rmw", ()):
                o = st.w(o.id)
                o.meta["rmw"] = tuple(sorted(o.meta.get("rmw", ()) + ((key, off),), key=repr))
            d = -1 if (op == "sub" and v == 1) or (op == "add" and v in (M64, 0xffffffff)) else 1 if op == "add" else 0
            if d == -1:
                o = st.w(o.id)
                rel = order in ("release", "acq_rel", "seq_cst")
                o.meta["dec_order"] = order
                if not rel:
                    o.meta["weak"] = 1
                o.meta["acq"] = 1 if order in ("acq_rel", "seq_cst") else 0

    def atomic_store(self, eng, st, p, ins):
        o, key, off = eng.resolve(st, p, 1, "atomic store")
        if (key, off) in o.meta.get("rmw", ()):
            raise Violation("ordering", "a count that is updated atomically elsewhere is stored here after a separate load: concurrent updates are lost")
        o = st.w(o.id)
        o.meta["ast"] = tuple(sorted(set(o.meta.get("ast", ()) + ((key, off),)), key=repr))

    def fence(self, eng, st, order, ins):
        if st.opts.get("refcnt") and order in ("acquire", "acq_rel", "seq_cst"):
            for oid, o in list(st.objs.items()):
                if "dec_order" in o.meta and o.alive:
                    st.w(oid).meta["acq"] = 1

    def asm(self, eng, st, fr, ins):
        s = ins[3][1]
        if re.search(r"\b(syscall|int\s+\$0x80|sysenter)\b", s):
            self.effect(st, "system call instruction")
        if re.search(r"\bv?(ldmxcsr|fldcw|fldenv|fninit|finit|frstor|fxrstor|xrstor\w*)", s):
            self.fp_new(eng, st, ins)
        eng.finish_call(st, UNDEF)

    # ------------------------------------------------------------ exceptions
    def f___cxa_allocate_exception(self, eng, st, ins, args):
        o = eng.alloc(st, "exc", args[0], "exception object", 16)
        o.meta["refs"] = 0
        eng.finish_call(st, L1(o.base))

    def f___cxa_free_exception(self, eng, st, ins, args):
        o = st.w(prov(args[0]))
        o.alive = False
        o.dead_by = "freed"
        eng.finish_call(st, UNDEF)

    def f___cxa_throw(self, eng, st, ins, args):
        oid = prov(args[0])
        o = st.w(oid)
        ti = st.objs[prov(args[1])].name
        o.meta["type"] = ti
        o.meta["dtor"] = st.objs[prov(args[2])].name if type(args[2]) is Lin else None
        o.meta["refs"] = 1
        eng.note(st, "%s throws %s" % (self.site(eng, ins), eng.tname(ti)))
        eng.throw(st, oid)

    def throw_std(self, eng, st, ti):
        o = eng.alloc(st, "exc", 64, "exception object", 16)
        o.meta.update(type=ti, dtor=None, refs=1)
        eng.throw(st, o.id)

    def thrower(self, ti):
        return lambda eng, st, ins, args: self.throw_std(eng, st, ti)

    def f___cxa_begin_catch(self, eng, st, ins, args):
        oid = prov(args[0])
        t = st.thread
        t.uncaught = max(0, t.uncaught - 1)
        if t.caught and t.caught[-1][0] == oid and t.caught[-1][1] < 0:
            t.caught[-1] = (oid, -t.caught[-1][1] + 1)
        elif t.caught and t.caught[-1][0] == oid:
            t.caught[-1] = (oid, t.caught[-1][1] + 1)
        else:
            t.caught.append((oid, 1))
        eng.finish_call(st, args[0])

    def f___cxa_get_exception_ptr(self, eng, st, ins, args):
        eng.finish_call(st, args[0])

    def f___cxa_end_catch(self, eng, st, ins, args):
        t = st.thread
        if not t.caught:
            raise Violation("exception-state", "a handler ends on a thread that is handling no exception")
        oid, n = t.caught[-1]
        if n < 0:
            n += 1
            if n == 0:
                t.caught.pop()
            else:
                t.caught[-1] = (oid, n)
            eng.finish_call(st, UNDEF)
            return
        n -= 1
        if n:
            t.caught[-1] = (oid, n)
            eng.finish_call(st, UNDEF)
            return
        t.caught.pop()
        o = st.w(oid)
        o.meta["refs"] -= 1
        if o.meta["refs"] == 0:
            d = o.meta.get("dtor")
            if d:
                h = self.lookup(eng, d)
                if h is None:
                    def after(e, s, v, oid=oid):
                        x = s.w(oid)
                        x.alive = False
                        x.dead_by = "destroyed at the end of its handler"
                        return None
                    eng.push(st, d, [L1(o.base)], (after,))
                    return
            o.alive = False
            o.dead_by = "destroyed at the end of its handler"
        eng.finish_call(st, UNDEF)

    def f___cxa_rethrow(self, eng, st, ins, args):
        t = st.thread
        if not t.caught:
            self.terminate(eng, st, "rethrow without an exception")
        oid, n = t.caught[-1]
        t.caught[-1] = (oid, -abs(n))
        eng.throw(st, oid)

    def f_uncaught(self, eng, st, ins, args):
        eng.finish_call(st, int(st.thread.uncaught > 0))

    def f_uncaught_n(self, eng, st, ins, args):
        eng.finish_call(st, st.thread.uncaught)

    def f___cxa_call_unexpected(self, eng, st, ins, args):
        self.terminate(eng, st, "unexpected exception")

    def f___cxa_pure_virtual(self, eng, st, ins, args):
        raise Violation("wild-pointer", "pure virtual function called")

    def f___cxa_guard_acquire(self, eng, st, ins, args):
        v = eng.read64(st, args[0], 0, 1)
        if v == 1:
            eng.finish_call(st, 0)
        else:
            self.held(st, 1)
            eng.finish_call(st, 1)

    def held(self, st, d):
        if "shared" in st.opts:
            st.opts["shared"] += d

    def f___cxa_guard_release(self, eng, st, ins, args):
        eng.write64(st, args[0], 1, 0, 1)
        self.held(st, -1)
        eng.finish_call(st, UNDEF)

    def f___cxa_guard_abort(self, eng, st, ins, args):
        self.held(st, -1)
        eng.finish_call(st, UNDEF)

    def f___cxa_thread_atexit(self, eng, st, ins, args):
        st.thread.dtors.append((st.objs[prov(args[0])].name, args[1]))
        eng.finish_call(st, 0)

    def f___cxa_atexit(self, eng, st, ins, args):
        if st.opts.get("atexit"):
            st.threads[0].dtors.insert(0, (st.objs[prov(args[0])].name, args[1]))
        eng.finish_call(st, 0)

    f_atexit = f___cxa_atexit

    def f___gxx_personality_v0(self, eng, st, ins, args):
        raise AnalysisError("personality called")

    def typeid_for(self, eng, st, ins, args):
        g = args[0]
        eng.finish_call(st, eng.typeid(E.GlobalRef(st.objs[prov(g)].name)) if type(g) is Lin else eng.typeid(0))

    def syserr_ctor(self, eng, st, ins, args):
        eng.memset(st, args[0], 0, 32, "system_error")
        # libstdc++: vtable, message, then the error_code (value, category), which arrives in two registers
        if len(args) > 2 and args[1] is not UNDEF and args[2] is not UNDEF:
            eng.write64(st, args[0], args[1], 16, 4, "system_error")
            eng.write64(st, args[0], args[2], 24, 8, "system_error")
        eng.finish_call(st, UNDEF)

    def exc_ctor(self, eng, st, ins, args):
        eng.memset(st, args[0], 0, 16, "exception")
        eng.finish_call(st, UNDEF)

    def syscat(self, eng, st, ins, args):
        eng.finish_call(st, L1(st.objs[eng.gobj(st, "vf.system_category")].base))

    # ------------------------------------------------------------ streams (observers only)
    def ostream(self, eng, name, d):
        def out(kind):
            def h(eng, st, ins, args):
                o = st.objs.get(prov(args[0]))
                if o is not None and o.name in ("_ZSt4cerr", "_ZSt4cout", "_ZSt4clog"):
                    self.effect(st, "system call")
                    return eng.finish_call(st, args[0])
                st.opts["out"] = st.opts.get("out", ()) + ((kind, self.cstr(eng, st, args[1]) if kind == "text" else args[1] if type(args[1]) is not Lin else "ptr"),)
                eng.finish_call(st, args[0])
            return h
        if re.search(r"std::(endl|flush|ends)<", d):
            return lambda eng, st, ins, args: (self.effect(st, "system call"), eng.finish_call(st, args[0]))
        if re.search(r"operator<<\(std::(ostream|ios_base|basic_o?ios<.*>)& \(\*\)", d) or re.search(r"operator<<\((double|float|long double)\)|::flush\(\)", d):
            return lambda eng, st, ins, args: eng.finish_call(st, args[0])
        if "operator<<" in d and "char const*" in d:
            return out("text")
        if re.search(r"operator<<\(void const\*\)|_M_insert<void const\*>\(void const\*\)", d):
            return out("ptr")
        if re.search(r"__ostream_insert", d):
            return out("text")
        if re.search(r"operator<<\((bool|int|unsigned int|long|unsigned long|short|long long|unsigned long long)\)|_M_insert<(bool|long|unsigned long)>", d) or "operator<<" in d and d.endswith("char)"):
            return out("num")
        return None

    def f_vf_out(self, eng, st, ins, args):
        """0 nothing, 1 the marker, 2 an address, 3 anything else"""
        o = st.opts.pop("out", ())
        s = "".join(x[1] if x[0] == "text" else "" for x in o)
        r = 0 if not o else 1 if all(x[0] == "text" for x in o) and s == "{not-a-context}" else 2 if len(o) == 1 and o[0][0] == "ptr" else 3
        eng.finish_call(st, r)

    # ------------------------------------------------------------ boost::pool
    def pool_ctor(self, eng, st, ins, args):
        o, key, off = eng.resolve(st, args[0], 16, "pool")
        k = (o.id, key, off)
        if k in st.live:
            raise Violation("double-construct", "a pool is constructed over a living pool")
        st.live[k] = "pool"
        eng.write64(st, args[0], args[1])
        st.opts["pool_req"] = args[1]
        eng.finish_call(st, UNDEF)

    def pool_key(self, eng, st, p, what):
        o, key, off = eng.resolve(st, p, 8, what)
        k = (o.id, key, off)
        if st.live.get(k) != "pool":
            raise Violation("use-after-free", "%s: the pool is not alive" % what)
        return k

    def pool_malloc(self, eng, st, ins, args):
        self.pool_key(eng, st, args[0], "allocation from the pool")

        def ok(s):
            n = eng.read64(s, args[0])
            o = eng.alloc(s, "chunk", n, "stack memory from the pool", 16)
            o.meta["pool"] = prov(args[0])
            eng.finish_call(s, L1(o.base))
        alts = [(None, ok)]
        if st.opts.get("fail_malloc"):
            alts.append(("pool is exhausted", lambda s: eng.finish_call(s, 0)))
        self.branches(eng, st, alts)

    def pool_free(self, eng, st, ins, args):
        self.pool_key(eng, st, args[0], "return of a stack to the pool")
        p = args[1]
        o = st.objs.get(prov(p)) if type(p) is Lin else None
        if o is not None and o.kind == "chunk" and o.alive and o.meta.get("pool") != prov(args[0]):
            raise Violation("bad-free", "a stack is returned to a pool it does not come from")
        self.release(eng, st, p, ("chunk",), "returned to the pool")
        eng.finish_call(st, UNDEF)

    def pool_purge(self, eng, st, ins, args):
        eng.finish_call(st, 0)

    def counter_of(self, st, oid):
        """the object that holds the count of references to the pool in oid: the same one, or one that points to it"""
        o = st.objs[oid]
        if "dec_order" in o.meta or "acq" in o.meta:
            return o
        for x in st.objs.values():
            if x.alive and x.kind == "heap" and ("dec_order" in x.meta or "acq" in x.meta):
                if any(type(v) is Lin and prov(v) == oid for cells in x.cells.values() for n, v in cells.values()):
                    return x
        return o

    def atomic_load(self, eng, st, p, order):
        """an acquire load of a count synchronises with the release decrements it observes"""
        if order in ("acquire", "acq_rel", "seq_cst"):
            o, key, off = eng.resolve(st, p, 1, "atomic load")
            if o.kind == "heap":
                st.w(o.id).meta["acq"] = 1

    def pool_dtor(self, eng, st, ins, args):
        k = self.pool_key(eng, st, args[0], "destruction of the pool")
        if st.opts.get("refcnt"):
            o = self.counter_of(st, k[0])
            if o.meta.get("weak"):
                raise Violation("ordering", "the pool is destroyed although a reference was dropped without release ordering (%s)" % o.meta.get("dec_order"))
            if "dec_order" not in o.meta and not o.meta.get("acq"):
                raise Violation("ordering", "the pool is destroyed without an atomic reference-count decrement")
            if not o.meta.get("acq"):
                raise Violation("ordering", "the pool is destroyed without acquire ordering after the last reference was dropped")
        for oid, o in list(st.objs.items()):
            if o.alive and o.kind == "chunk" and o.meta.get("pool") == k[0]:
                raise Violation("pool", "the pool is destroyed while a stack from it is still in use")
        del st.live[k]
        eng.finish_call(st, UNDEF)

    # ------------------------------------------------------------ switching
    def token_for(self, eng, st, c):
        o = eng.alloc(st, "token", 8, "suspended context (%s)" % c.name, 16)
        o.meta["ctx"] = c.id
        c.token = o.id
        return L1(o.base)

    def take_token(self, eng, st, p, what):
        if p is UNDEF:
            raise Violation("bad-switch", "%s to an undefined context" % what)
        if type(p) is not Lin:
            raise Violation("bad-switch", "%s to an empty context (%s)" % (what, "nullptr" if p == 0 else hex(p)))
        o = st.objs.get(prov(p))
        if o is None or o.kind != "token" or p.c:
            raise Violation("bad-switch", "%s to something that is not a suspended context (%r)" % (what, p))
        if not o.alive:
            raise Violation("one-shot", "%s to a context through a handle that was already used (%s)" % (what, o.dead_by))
        c = st.ctxs.get(o.meta["ctx"])
        if c is None or c.status not in ("suspended", "fresh"):
            raise Violation("bad-switch", "%s to a context that is not suspended" % what)
        w = st.w(o.id)
        w.alive = False
        w.dead_by = "the context was resumed through it"
        c.token = None
        return c

    def leave_enter(self, eng, st, target):
        """bookkeeping common to all switches; the current context becomes suspended"""
        eng.stats["switches"] += 1
        t = st.thread
        cur = st.ctx
        tgt = st.ctxs[target.id]
        if tgt is cur:
            raise Violation("bad-switch", "a context switches to itself")
        if tgt.meta.get("ss") and not st.objs[tgt.meta["ss"]].alive:
            raise Violation("use-after-free", "a context is resumed whose shadow stack was unmapped")
        if st.opts.get("asan"):
            self.asan_switch(eng, st, cur, tgt)
        if st.opts.get("tsan"):
            self.tsan_switch(eng, st, cur, tgt)
        if st.opts.get("seg"):
            self.seg_switch(eng, st, cur, tgt)
        if st.opts.get("fp") or cur.meta.get("fp") or tgt.meta.get("fp"):
            # the switch saves and restores the control words
            cur.meta["fp"] = st.opts.get("fp", 0)
            st.opts["fp"] = tgt.meta.get("fp", 0)
        cur.status = "suspended"
        tgt.status = "running"
        t.ctx = tgt.id
        tgt.meta["on"] = st.cur_t

    def bind_stack(self, eng, st, c, sp_hi, size, what):
        """the new context will run on [sp_hi-size, sp_hi)"""
        if type(sp_hi) is not Lin or prov(sp_hi) is None:
            raise Violation("placement", "%s on memory that is not a stack (%r)" % (what, sp_hi))
        lo = sub(sp_hi, size)
        o = st.objs.get(prov(sp_hi))
        if o is None or not o.alive:
            raise Violation("use-after-free", "%s on memory that was released" % what)
        if type(lo) is not Lin or prov(lo) != o.id:
            raise Violation("placement", "%s: the stack range does not lie in %s" % (what, o.name))
        eng.require(st, sub(lo, L1(o.base)), "placement", "%s: the lowest stack address lies below %s" % (what, o.name))
        eng.require(st, sub(add(L1(o.base), o.size), sp_hi), "placement", "%s: the top of the stack lies above the end of %s" % (what, o.name))
        eng.require(st, add(size, -1), "placement", "%s: the stack has no room" % what)
        if st.opts.get("min_room"):
            eng.require(st, sub(size, st.opts["min_room"]), "placement", "%s: less room than the size asked for minus the control structure" % what)
        if "reserved" in o.meta:
            eng.require(st, sub(o.meta["reserved"], sp_hi), "placement", "%s: the top of the stack lies above the stack pointer the caller supplied" % what)
        if "reserved_lo" in o.meta:
            eng.require(st, sub(lo, o.meta["reserved_lo"]), "placement", "%s: the stack reaches below the range the caller supplied" % what)
        # anything already stored in the region must lie above the stack
        cet = st.opts.get("cet")
        if cet:
            self.bind_shadow(eng, st, c, sp_hi, what)
        for key, cells in o.cells.items():
            for off, (n, v) in cells.items():
                a = add(Lin(key, off), 0) if key else L1(o.base, off)
                if key and prov(a) is None:
                    a = add(a, L1(o.base)) if not any(s.kind == "base" or s.obj == o.id for s, _ in key) else a
                if type(a) is Lin and o.base not in [s for s, _ in a.terms] and prov(a) != o.id:
                    a = add(a, L1(o.base))
                if cet and sub(a, sp_hi) == -8:
                    continue              # make_fcontext's argument
                eng.require(st, sub(a, sp_hi), "placement", "%s: the control structure overlaps the stack the context runs on" % what)
        for (kid, key, off) in st.live:
            if kid == o.id:
                a = Lin(key, off) if key else L1(o.base, off)
                if prov(a) != o.id:
                    a = add(a, L1(o.base))
                eng.require(st, sub(a, sp_hi), "placement", "%s: an object of the control structure lies on the stack the context runs on" % what)
        for cid, c2 in st.ctxs.items():
            if cid != c.id and c2.region == o.id and c2.status != "dead":
                raise Violation("placement", "%s on a stack that another live context uses" % what)
        o = st.w(o.id)
        o.meta["stack"] = ((c.id, lo, sp_hi),)
        c.region = o.id
        c.meta["lo"], c.meta["hi"] = sub(lo, L1(o.base)), sub(sp_hi, L1(o.base))

    def make(self, eng, st, ins, args, what="make_fcontext"):
        sp, size, fn = args
        c = Ctx(new_id(), "context")
        if st.opts.get("fp"):
            c.meta["fp"] = st.opts["fp"]
        c.status = "fresh"
        st.ctxs[c.id] = c
        self.bind_stack(eng, st, c, sp, size, what)
        if type(fn) is not Lin or prov(fn) not in st.objs or st.objs[prov(fn)].kind != "func":
            raise Violation("bad-switch", "make_fcontext without a function")
        c.entry = st.objs[prov(fn)].name
        c.meta["made"] = what
        c.meta["entry"] = c.entry
        eng.finish_call(st, self.token_for(eng, st, c))

    f_make_fcontext = make

    def f_jump_fcontext(self, eng, st, ins, args):
        to, data = args
        tgt = self.take_token(eng, st, to, "jump_fcontext")
        cur = st.ctx
        eng.note(st, "%s switch %s -> %s" % (self.site(eng, ins), cur.name, tgt.name))
        tok = self.token_for(eng, st, cur)
        fresh = tgt.status == "fresh"
        self.leave_enter(eng, st, tgt)
        if fresh:
            eng.push(st, tgt.entry, [tok, data])
        else:
            eng.finish_call(st, (tok, data))

    def f_ontop_fcontext(self, eng, st, ins, args):
        to, data, fn = args
        tgt = self.take_token(eng, st, to, "ontop_fcontext")
        if type(fn) is not Lin or prov(fn) not in st.objs or st.objs[prov(fn)].kind != "func":
            raise Violation("bad-switch", "ontop_fcontext without a function")
        if tgt.status == "fresh":
            raise Violation("bad-switch", "ontop_fcontext on a context that was never entered")
        cur = st.ctx
        eng.note(st, "%s switch %s -> %s with %s on top" % (self.site(eng, ins), cur.name, tgt.name, demangle(st.objs[prov(fn)].name)[:60]))
        tok = self.token_for(eng, st, cur)
        self.leave_enter(eng, st, tgt)
        eng.push(st, st.objs[prov(fn)].name, [tok, data])

    # ucontext: token cell at +168 (program counter slot of the saved machine state)
    UC = 168
    UC_SIZE = 968

    def f_getcontext(self, eng, st, ins, args):
        p = args[0]

        def ok(s):
            # the saved machine state denotes "here"; only makecontext/swapcontext give it a resumable meaning
            eng.write64(s, p, 1, self.UC, 8, "getcontext")
            eng.finish_call(s, 0)
        alts = [(None, ok)]
        if st.opts.get("fail_getcontext"):
            def no(s):
                eng.write64(s, self.errno_of(eng, s), 12, 0, 4, "errno")
                eng.finish_call(s, 0xffffffff)
            alts.append(("%s getcontext fails" % self.site(eng, ins), no))
        self.branches(eng, st, alts)

    def f_makecontext(self, eng, st, ins, args):
        p, fn = args[0], args[1]
        if eng.read64(st, p, self.UC) != 1:
            raise Violation("bad-switch", "makecontext on a ucontext_t that getcontext did not initialise")
        lo, size = eng.read64(st, p, 16), eng.read64(st, p, 32)
        link = eng.read64(st, p, 8)
        if lo is UNDEF or size is UNDEF:
            raise Violation("placement", "makecontext without a stack")
        c = Ctx(new_id(), "context")
        if st.opts.get("fp"):
            c.meta["fp"] = st.opts["fp"]
        c.status = "fresh"
        st.ctxs[c.id] = c
        self.bind_stack(eng, st, c, add(lo, size), size, "makecontext")
        c.entry = st.objs[prov(fn)].name
        c.meta["entry"] = c.entry
        if type(args[2]) is not int:
            raise AnalysisError("makecontext with a symbolic argument count")
        if args[2] != len(args) - 3:
            raise Violation("bad-switch", "makecontext says %d arguments and passes %d" % (args[2], len(args) - 3))
        c.meta["args"] = tuple(args[3:])
        if len(args) == 5:
            # an address handed over in two ints
            e = halves(args[4], scale(args[3], 1 << 32)) or halves(args[3], scale(args[4], 1 << 32))
            if e is not None:
                c.meta["args"] = (e,)
                c.meta["split"] = 1 if halves(args[4], scale(args[3], 1 << 32)) is not None else 2
        eng.write64(st, p, self.token_for(eng, st, c), self.UC, 8, "makecontext")
        eng.finish_call(st, UNDEF)

    def f_swapcontext(self, eng, st, ins, args):
        o, u = args
        cur = st.ctx
        v = eng.read64(st, u, self.UC, 8, "swapcontext")
        old = eng.read64(st, o, self.UC, 8, "swapcontext")
        if type(old) is Lin and prov(old) in st.objs and st.objs[prov(old)].alive and st.objs[prov(old)].kind == "token":
            raise Violation("bad-switch", "swapcontext saves over a context that is still suspended")
        if v == 1 or v is UNDEF or v == 0:
            raise Violation("bad-switch", "swapcontext to a context that is not suspended")
        tgt = self.take_token(eng, st, v, "swapcontext")
        eng.note(st, "%s switch %s -> %s" % (self.site(eng, ins), cur.name, tgt.name))
        tok = self.token_for(eng, st, cur)
        eng.write64(st, o, tok, self.UC, 8, "swapcontext")
        fresh = tgt.status == "fresh"
        self.leave_enter(eng, st, tgt)
        if fresh:
            a = list(tgt.meta["args"])
            if "split" in tgt.meta:
                h = floordiv(a[0], 1 << 32), opaque("trunc32", a[0])
                a = list(h if tgt.meta["split"] == 1 else h[::-1])
            eng.push(st, tgt.entry, a)
        else:
            eng.finish_call(st, 0)

    def f_setcontext(self, eng, st, ins, args):
        raise AnalysisError("setcontext is not modelled")

    # Windows fibers: the fiber object is the handle of a context for the whole of its life and owns its stack
    WF_ERR = 1280  # ERROR_ALREADY_FIBER

    def wf_new(self, eng, st, c, data):
        o = eng.alloc(st, "winfiber", 16, "fiber of %s" % c.name, 16)
        o.meta["ctx"] = c.id
        c.meta["fib"] = L1(o.base)
        c.meta["data"] = data
        return o

    def wf_of(self, eng, st, p, what):
        if type(p) is not Lin:
            raise Violation("bad-switch", "%s: no fiber (%r)" % (what, p))
        o = st.objs.get(prov(p))
        if o is None or o.kind != "winfiber" or sub(p, L1(o.base)) != 0:
            raise Violation("bad-switch", "%s on something that is not a fiber (%r)" % (what, p))
        if not o.alive:
            raise Violation("use-after-free", "%s on a fiber that was deleted (%s)" % (what, o.dead_by))
        return o

    def f_IsThreadAFiber(self, eng, st, ins, args):
        eng.finish_call(st, 1 if st.thread.winfiber else 0)

    def f_GetCurrentFiber(self, eng, st, ins, args):
        eng.finish_call(st, st.ctx.meta["fib"] if st.thread.winfiber else 0x1E00)

    def f_ConvertThreadToFiber(self, eng, st, ins, args):
        if st.thread.winfiber:
            st.opts["lasterr"] = self.WF_ERR
            eng.finish_call(st, 0)
            return

        def ok(s):
            s.thread.winfiber = 1
            o = self.wf_new(eng, s, s.ctx, args[0])
            eng.finish_call(s, L1(o.base))
        self.branches(eng, st, [(None, ok)])

    def f_ConvertFiberToThread(self, eng, st, ins, args):
        t = st.thread
        if not t.winfiber:
            eng.finish_call(st, 0)
            return
        if not st.ctx.meta.get("main"):
            raise Violation("bad-switch", "ConvertFiberToThread on a fiber other than the thread's own: its stack is released while code runs on it")
        o = self.wf_of(eng, st, st.ctx.meta["fib"], "ConvertFiberToThread")
        eng.kill_obj(st, o.id, "ConvertFiberToThread")
        t.winfiber = 0
        st.ctx.meta.pop("fib", None)
        st.ctx.meta.pop("data", None)
        eng.finish_call(st, 1)

    def f_GetLastError(self, eng, st, ins, args):
        eng.finish_call(st, st.opts.get("lasterr", 0))

    def f_CreateFiber(self, eng, st, ins, args):
        size, fn, data = args
        if type(fn) is not Lin or prov(fn) not in st.objs or st.objs[prov(fn)].kind != "func":
            raise Violation("bad-switch", "CreateFiber without a function")

        def ok(s):
            c = Ctx(new_id(), "context")
            c.status = "fresh"
            s.ctxs[c.id] = c
            c.entry = s.objs[prov(fn)].name
            c.meta["entry"] = c.entry
            o = self.wf_new(eng, s, c, data)
            o.name = "fiber of a context"
            o.meta["req"] = size
            c.region = o.id
            eng.finish_call(s, L1(o.base))
        alts = [(None, ok)]
        if st.opts.get("fail_createfiber"):
            def bad(s):
                s.opts["lasterr"] = 8
                eng.finish_call(s, 0)
            alts.append(("%s CreateFiber fails" % self.site(eng, ins), bad))
        self.branches(eng, st, alts)

    def f_SwitchToFiber(self, eng, st, ins, args):
        o = self.wf_of(eng, st, args[0], "SwitchToFiber")
        if not st.thread.winfiber:
            raise Violation("bad-switch", "SwitchToFiber on a thread that was not converted to a fiber")
        tgt = st.ctxs[o.meta["ctx"]]
        cur = st.ctx
        if tgt.status not in ("suspended", "fresh"):
            raise Violation("bad-switch", "SwitchToFiber to a context that is not suspended")
        eng.note(st, "%s switch %s -> %s" % (self.site(eng, ins), cur.name, tgt.name))
        fresh = tgt.status == "fresh"
        self.leave_enter(eng, st, tgt)
        if fresh:
            eng.push(st, tgt.entry, [tgt.meta["data"]])
        else:
            eng.finish_call(st, UNDEF)

    def f_DeleteFiber(self, eng, st, ins, args):
        o = self.wf_of(eng, st, args[0], "DeleteFiber")
        c = st.ctxs[o.meta["ctx"]]
        if c.status == "running":
            raise Violation("stack-in-use", "DeleteFiber on the running fiber: the thread exits")
        if c.meta.get("main"):
            raise Violation("bad-free", "DeleteFiber on a thread's own fiber")
        self.kill_ctx(eng, st, c, "DeleteFiber")
        eng.kill_obj(st, o.id, "DeleteFiber")
        eng.finish_call(st, UNDEF)

    # Windows memory
    def f_GetSystemInfo(self, eng, st, ins, args):
        p = args[0]
        eng.write64(st, p, st.opts.get("page", 4096), 4, 4, "GetSystemInfo")
        eng.finish_call(st, UNDEF)

    def f_VirtualAlloc(self, eng, st, ins, args):
        self.effect(st, "system call VirtualAlloc")
        addr, n, typ, prot = args
        if addr != 0:
            raise AnalysisError("VirtualAlloc at a given address is not modelled")

        def ok(s):
            o = eng.alloc(s, "mmap", n, "mapping", s.opts.get("page") or 4096)
            o.meta["prot"] = 3 if prot == 4 else 1 if prot == 2 else 0
            o.meta["how"] = "VirtualAlloc"
            if typ != 0x1000 and typ != 0x3000:
                raise AnalysisError("VirtualAlloc type %r is not modelled" % (typ,))
            eng.finish_call(s, L1(o.base))
        alts = [(None, ok)]
        if st.opts.get("fail_mmap"):
            alts.append(("VirtualAlloc fails", lambda s: eng.finish_call(s, 0)))
        if st.opts.get("wrap") or n == 0:
            alts = self.limited(eng, alts, 0, n)
        if n == 0:
            alts = [("VirtualAlloc of nothing fails", lambda s: eng.finish_call(s, 0))]
        self.branches(eng, st, alts)

    def f_VirtualProtect(self, eng, st, ins, args):
        self.effect(st, "system call VirtualProtect")
        p, n, prot, old = args

        def ok(s):
            o, k, off = eng.resolve(s, p, 0, "VirtualProtect")
            eng.require(s, sub(o.size, add(sub(p, L1(o.base)), n)), "out-of-bounds", "VirtualProtect beyond the end of %s" % o.name)
            eng.write64(s, old, 4, 0, 4, "VirtualProtect")
            o = s.w(o.id)
            o.meta["guard_prot"] = 0 if type(prot) is int and (prot & 0x100 or prot & 0xff == 1) else prot
            pg = s.opts.get("page", 4096)
            o.meta["guard_off"] = sub(p, L1(o.base))
            o.meta["guard_len"] = (n + pg - 1) // pg * pg if type(n) is int and type(pg) is int else n
            eng.finish_call(s, 1)
        alts = [(None, ok)]
        if st.opts.get("fail_mprotect"):
            alts.append(("VirtualProtect fails", lambda s: eng.finish_call(s, 0)))
        self.branches(eng, st, alts)

    def f_VirtualFree(self, eng, st, ins, args):
        self.effect(st, "system call VirtualFree")
        p, n, typ = args
        if typ != 0x8000:
            raise Violation("leak", "VirtualFree without MEM_RELEASE keeps the address range reserved")
        if n != 0:
            raise Violation("bad-free", "VirtualFree(MEM_RELEASE) with a size fails: nothing is released")
        self.release(eng, st, p, ("mmap",), "VirtualFree", "VirtualAlloc")
        eng.finish_call(st, 1)

    # ------------------------------------------------------------ ASAN
    def f___sanitizer_start_switch_fiber(self, eng, st, ins, args):
        save, bottom, size = args
        if st.asan is not None:
            raise Violation("asan", "a switch is announced while another announced switch has not been completed")
        st.asan = (st.ctx.id, save, bottom, size)
        eng.finish_call(st, UNDEF)

    def asan_bounds(self, st, c):
        if c.region is not None and c.region in st.objs:
            b = st.objs[c.region].base
            return add(L1(b), c.meta["lo"]), sub(c.meta["hi"], c.meta["lo"])
        if "asan_lo" not in c.meta:
            c.meta["asan_lo"] = L1(Sym("stack bottom of %s" % c.name, align=16))
            c.meta["asan_sz"] = L1(Sym("stack size of %s" % c.name))
        return c.meta["asan_lo"], c.meta["asan_sz"]

    def seen(self, eng, rule):
        c = eng.stats["checks"]
        c[rule] = c.get(rule, 0) + 1

    def asan_switch(self, eng, st, cur, tgt):
        self.seen(eng, "C15: every switch is announced to the address sanitizer with the target's stack bounds")
        a = st.asan
        if a is None:
            raise Violation("asan", "a switch happens that was not announced to the address sanitizer")
        cid, save, bottom, size = a
        if cid == "arrived":
            raise Violation("asan", "a switch happens although the previous one was not completed on arrival")
        lo, n = self.asan_bounds(st, tgt)
        if bottom != lo or size != n:
            raise Violation("asan", "the announced stack bounds (%r,%r) are not those of the target (%r,%r)" % (bottom, size, lo, n))
        if tgt.meta.get("asan_null") == 1:
            raise Violation("asan", "a context is resumed after its fake stack was given up")
        if save == 0:
            cur.meta["asan_null"] = 1
        else:
            s = Sym("fake stack", "num")
            cur.meta["asan_fake"] = L1(s)
            eng.write64(st, save, L1(s), 0, 8, "fake stack handle")
        if "asan_fake" in tgt.meta:
            want = tgt.meta.pop("asan_fake")
        else:
            want = 0
        st.asan = ("arrived", tgt.id, cur.id, want)

    def f___sanitizer_finish_switch_fiber(self, eng, st, ins, args):
        fake, bo, so = args
        a = st.asan
        if a is None or a[0] != "arrived":
            raise Violation("asan", "a switch is completed that did not happen")
        _, tid, cid, want = a
        if tid != st.ctx.id:
            raise Violation("asan", "a switch is completed on another context than the one that was entered")
        if fake != want:
            raise Violation("asan", "on arrival the fake stack handle %r is passed, the context saved %r" % (fake, want))
        lo, n = self.asan_bounds(st, st.ctxs[cid])
        if bo != 0:
            eng.write64(st, bo, lo, 0, 8, "old stack bottom")
        if so != 0:
            eng.write64(st, so, n, 0, 8, "old stack size")
        st.asan = None
        eng.finish_call(st, UNDEF)

    # ------------------------------------------------------------ TSAN
    def f___tsan_get_current_fiber(self, eng, st, ins, args):
        t = st.thread
        if t.tsan is None:
            o = eng.alloc(st, "tsanthread", 8, "sanitizer state of thread %d" % st.cur_t)
            t.tsan = L1(o.base)
        eng.finish_call(st, t.tsan)

    def f___tsan_create_fiber(self, eng, st, ins, args):
        o = eng.alloc(st, "tsan", 8, "sanitizer fiber")
        eng.finish_call(st, L1(o.base))

    def f___tsan_destroy_fiber(self, eng, st, ins, args):
        p = args[0]
        o = st.objs.get(prov(p)) if type(p) is Lin else None
        if o is None or o.kind != "tsan":
            raise Violation("tsan", "__tsan_destroy_fiber of %s" % ("a null fiber" if p == 0 else "something that is not a created fiber (%r)" % (p,)))
        if not o.alive:
            raise Violation("tsan", "a sanitizer fiber is destroyed twice")
        for t in st.threads.values():
            if t.tsan is not None and prov(t.tsan) == o.id:
                raise Violation("tsan", "the sanitizer fiber that is current is destroyed")
        o = st.w(o.id)
        o.alive = False
        o.dead_by = "__tsan_destroy_fiber"
        eng.finish_call(st, UNDEF)

    def f___tsan_switch_to_fiber(self, eng, st, ins, args):
        p = args[0]
        o = st.objs.get(prov(p)) if type(p) is Lin else None
        if o is None or o.kind not in ("tsan", "tsanthread"):
            raise Violation("tsan", "__tsan_switch_to_fiber to %r, which is not a fiber" % (p,))
        if not o.alive:
            raise Violation("tsan", "switch to a destroyed sanitizer fiber")
        if st.thread.tsan is None:
            self.thread_tsan(eng, st)
        if "tsan_pend" not in st.opts:
            st.ctx.meta.setdefault("tsanid", st.thread.tsan)
        st.thread.tsan = p
        st.opts["tsan_pend"] = 1
        eng.finish_call(st, UNDEF)

    def thread_tsan(self, eng, st):
        o = eng.alloc(st, "tsanthread", 8, "sanitizer state of thread %d" % st.cur_t)
        st.thread.tsan = L1(o.base)

    def tsan_switch(self, eng, st, cur, tgt):
        self.seen(eng, "C15: the target's thread-sanitizer fiber is current at every switch")
        if not st.opts.pop("tsan_pend", 0):
            raise Violation("tsan", "a switch happens without the target's sanitizer fiber being made current")
        now = st.thread.tsan
        want = tgt.meta.get("tsanid")
        if want is None:
            for c in st.ctxs.values():
                if c.meta.get("tsanid") == now and c.status != "dead":
                    raise Violation("tsan", "two contexts share a sanitizer fiber")
            tgt.meta["tsanid"] = now
        elif want != now:
            raise Violation("tsan", "the sanitizer fiber made current is not the target's")

    # ------------------------------------------------------------ split stacks
    def f___splitstack_makecontext(self, eng, st, ins, args):
        n, ctx, out = args

        def ok(s):
            o = eng.alloc(s, "segs", n if type(n) is Lin or n >= 4096 else 4096, "segmented stack", 16)
            eng.write64(s, ctx, L1(o.base), 0, 8, "segment bookkeeping")
            for i in range(1, 10):
                eng.write64(s, ctx, 0, 8 * i, 8, "segment bookkeeping")
            eng.write64(s, out, o.size, 0, 8, "segment size")
            eng.finish_call(s, L1(o.base))
        alts = [(None, ok)]
        if st.opts.get("fail_mmap"):
            alts.append(("__splitstack_makecontext fails", lambda s: eng.finish_call(s, 0)))
        self.branches(eng, st, alts)

    def seg_of_thread(self, eng, st):
        t = st.thread
        if t.seg is None:
            o = eng.alloc(st, "segthread", 8, "segments of thread %d" % st.cur_t)
            t.seg = L1(o.base)
        return t.seg

    def f___splitstack_releasecontext(self, eng, st, ins, args):
        v = eng.read64(st, args[0], 0, 8, "segment bookkeeping")
        o = st.objs.get(prov(v)) if type(v) is Lin else None
        if o is None or o.kind != "segs":
            raise Violation("segments", "__splitstack_releasecontext of bookkeeping that belongs to no segmented stack")
        if not o.alive:
            raise Violation("segments", "the segments of a context are released twice")
        for t in st.threads.values():
            if t.seg is not None and prov(t.seg) == o.id:
                raise Violation("segments", "segments are released while they are installed on a running thread")
        self.free_storage(eng, st, o.id, "segments released")
        eng.finish_call(st, UNDEF)

    def f___splitstack_block_signals_context(self, eng, st, ins, args):
        v = eng.read64(st, args[0], 0, 8, "segment bookkeeping")
        eng.finish_call(st, UNDEF)

    def f___splitstack_getcontext(self, eng, st, ins, args):
        v = self.seg_of_thread(eng, st)
        eng.write64(st, args[0], v, 0, 8, "segment bookkeeping")
        for i in range(1, 10):
            eng.write64(st, args[0], 0, 8 * i, 8, "segment bookkeeping")
        st.opts["seg_saved"] = v
        st.ctx.meta.setdefault("segid", v)
        eng.finish_call(st, UNDEF)

    def f___splitstack_setcontext(self, eng, st, ins, args):
        v = eng.read64(st, args[0], 0, 8, "segment bookkeeping")
        o = st.objs.get(prov(v)) if type(v) is Lin else None
        if o is None or o.kind not in ("segs", "segthread"):
            raise Violation("segments", "__splitstack_setcontext installs bookkeeping of no segmented stack (%r)" % (v,))
        if not o.alive:
            raise Violation("segments", "__splitstack_setcontext installs segments that were released")
        self.seg_of_thread(eng, st)
        st.thread.seg = v
        st.opts["seg_set"] = 1
        eng.finish_call(st, UNDEF)

    def seg_switch(self, eng, st, cur, tgt):
        self.seen(eng, "C15: segment bookkeeping is saved and installed around every switch")
        saved = st.opts.pop("seg_saved", None)
        if not st.opts.pop("seg_set", 0):
            raise Violation("segments", "a switch happens without installing the target's segment bookkeeping")
        if saved is None:
            raise Violation("segments", "a switch happens without saving the running context's segment bookkeeping")
        if saved != cur.meta.get("segid"):
            raise Violation("segments", "the bookkeeping saved at a switch is not that of the context that suspends")
        now = st.thread.seg
        want = tgt.meta.get("segid")
        if want is None:
            tgt.meta["segid"] = now
            if tgt.region is not None and prov(now) != tgt.region:
                raise Violation("segments", "the bookkeeping installed for a new context is not that of its stack")
        elif want != now:
            raise Violation("segments", "the bookkeeping installed at a switch is not the target's")
