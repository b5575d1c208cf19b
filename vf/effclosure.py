"""C18: nothing the switch path can call has an effect outside the program, however rarely it is called.

On the IR of the clients linked with the library: roots are every instance of resume() and resume_with() of the handles, the functions those hand to the
switch routines, and the creation of a context; the closure follows direct calls and functions whose address is handed over. Functions of the client
(its callable, allocator, injected functions) are not entered. No function in the closure may call an allocation function, a lock operation or a system call,
contain inline assembly that does, or contain a loop around an atomic read-modify-write."""
import os, re, shutil, tempfile
from concurrent.futures import ProcessPoolExecutor
from vf.report import REPO, HERE, Broken
from vf import irrun
from vf.ircheck import FC

ALLOC = re.compile(r"(malloc|calloc|realloc|free|aligned_alloc|posix_memalign|memalign|valloc|strdup|_Zn[wa].*|_Zd[la].*|alloca_heap|mmap|mmap64|munmap|sbrk|brk|mprotect|mremap|"
                   r"_ZNSt3pmr.*|obstack_.*)$")
LOCK = re.compile(r"(pthread_(mutex|rwlock|spin|cond|barrier|once|join|create).*|__cxa_guard_acquire|sem_.*|mtx_.*|cnd_.*|call_once|_ZNSt15__once_callable.*|_ZNSt.*mutex.*|_ZNSt18condition_variable.*|"
                  r"__gthread.*lock.*|flock|lockf|f?lockfile|__atomic_(load|store|exchange|compare_exchange)|_ZNSt6thread.*|_ZSt4lock.*)$")
SYS = re.compile(r"(syscall|sched_.*|nanosleep|clock_nanosleep|usleep|sleep|poll|ppoll|p?select|epoll_.*|getpid|gettid|getppid|read|write|pread|pwrite|readv|writev|open|openat|close|creat|lseek|"
                 r"f?stat|fcntl|ioctl|dup.*|pipe.*|socket|send.*|recv.*|connect|accept.*|bind|listen|kill|tgkill|raise|sig(action|procmask|altstack|pending|suspend|wait.*|queue)|pthread_sigmask|pthread_kill|"
                 r"getrlimit|setrlimit|getrusage|times|sysconf|getpagesize|madvise|mincore|mlock.*|munlock.*|msync|membarrier|prctl|arch_prctl|fork|vfork|clone|exec.*|wait.*|futex|"
                 r"printf|fprintf|vf?printf|puts|fputs|putc|fputc|putchar|perror|fwrite|fread|fopen|fclose|fflush|syslog|getenv|secure_getenv|getrandom|getentropy|random_device.*|"
                 r"_ZNSo.*|_ZStls.*|_ZNKSt.*print.*|_ZNSt3_V2.*clock.*|_ZNSt6chrono.*|_ZNSt13random_device.*|_ZNSt11this_thread.*|(get|set|make|swap)context)$")
CLIENT = re.compile(r"(void |H |static )*(\(anonymous namespace\)::)?(Inj|Body|EAlloc|NoEff|G|drv_\w+|plain_inject|make_ctx|resume|resume_with|vf_\w+|landed|Left)\b")


def kind(n):
    return "dynamic memory allocation" if ALLOC.match(n) else "lock operation" if LOCK.match(n) else "system call" if SYS.match(n) else None


def in_loop(f, b):
    """can block b reach itself?"""
    from llvmir import succs
    seen, todo = set(), list(succs(f.blocks[b][-1]))
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen and x < len(f.blocks):
            seen.add(x)
            todo += succs(f.blocks[x][-1])
    return False


def lint(bc):
    from llvmir import Module, GlobalRef
    from natives import demangle
    m = Module(bc)

    def client(n):
        d = demangle(n)
        if re.match(r"boost::context::basic_\w+_?stack<.*::(de)?allocate\(|boost::context::segmented_stack::", d):
            return True      # the one stack of a context; the effect analysis of the default clients counts what it does
        return bool(CLIENT.match(d)) or "{lambda" in d.split("(")[0] and not d.startswith("boost::") or d.startswith("drv_")
    roots = []
    for n in m.fnptr:
        d = demangle(n)
        if re.search(r"boost::context::(fiber|continuation)::resume(_with)?\b", d) or re.search(r"boost::context::(callcc|detail::create_(fiber|context)[12])\b", d):
            f = m.fn(n)
            if f and not f.decl:
                roots.append(n)
    via, todo, bad, ext, sites = {r: None for r in roots}, list(roots), [], {}, 0

    def path(n):
        out = []
        while n is not None:
            out.append(demangle(n)[:160])
            n = via[n]
        return " <- ".join(out[:8])
    inside = 0
    while todo:
        n = todo.pop()
        f = m.fn(n)
        if not f or f.decl:
            continue
        inside += 1
        for bi, b in enumerate(f.blocks):
            for ins in b:
                op = ins[0]
                if op in ("atomicrmw", "cmpxchg") and in_loop(f, bi):
                    bad.append(("lock operation", "a loop around an atomic read-modify-write (spin lock)", demangle(n), path(n)))
                if op not in ("call", "invoke"):
                    continue
                sites += 1
                c = ins[3]
                if c[0] == "asm":
                    if re.search(r"syscall|sysenter|int\s+\$?0x80|\bsvc\b|\becall\b", str(c)):
                        bad.append(("system call", "inline assembly", demangle(n), path(n)))
                    continue
                tg = []
                if c[0] == "c" and isinstance(c[1], GlobalRef):
                    tg.append((m.alias.get(c[1].name, c[1].name), True))
                for a in ins[4]:
                    if type(a) is tuple and len(a) > 1 and a[0] == "c" and isinstance(a[1], GlobalRef):
                        g = m.alias.get(a[1].name, a[1].name)
                        if g in m.fnptr:
                            tg.append((g, False))
                for t, called in tg:
                    g = m.fn(t)
                    if g and not g.decl:
                        # the entry of a context is what runs in it, not part of the switch; its end releases the stack
                        if t not in via and not client(t):
                            via[t] = n
                            todo.append(t)
                    elif called:
                        k = kind(t)
                        if k:
                            bad.append((k, "call of %s" % demangle(t), demangle(n), path(n)))
                        ext[t] = ext.get(t, 0) + 1
    return bad, len(roots), inside, sites, sorted(x for x in ext if not x.startswith("llvm."))


def _one(a):
    std, flags = a
    tmp = tempfile.mkdtemp(prefix="vfeff")
    try:
        try:
            bc = irrun.build("eff", std, list(flags), tmp, FC)
        except irrun.CompileFailed as e:
            return ("compile", str(e))
        return ("ok", lint(bc))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(chk, tier):
    jobs = [(s, fl + k) for s in (("c++11", "c++17") if tier == "quick" else ("c++11", "c++14", "c++17", "c++20")) for fl in ((), ("-DNDEBUG",)) for k in ((), ("-DVF_CONT",))
            if tier != "quick" or (s == "c++17") == (fl == ())]
    with ProcessPoolExecutor(8) as ex:
        res = list(ex.map(_one, jobs))
    for (std, fl), (st, r) in zip(jobs, res):
        nm = "%s %s" % (std, " ".join(fl))
        if st != "ok":
            raise Broken("%s: %s" % (nm, r))
        bad, roots, inside, sites, ext = r
        if roots < 4:
            raise Broken("%s: the switch path is not found" % nm)
        chk.unit("effect closure: roots", roots)
        chk.unit("effect closure: functions", inside)
        chk.unit("effect closure: call sites", sites)
        rule = "C18: nothing that resuming or creating a context can call allocates, locks or enters the system"
        for k, what, fn, path in bad:
            chk.ob(rule, nm, False, "%s (%s) in %s\n    reached: %s" % (what, k, fn, path), fn[:120])
        if not bad:
            chk.ob(rule, nm, True)
