"""C19: the build descriptions (b2 aliases, CMake defaults) are evaluated for every platform they offer, and every assembler source they
select is assembled (or, where no assembler for the format exists here, its directives are parsed) and its symbol table inspected."""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from vf.report import REPO, Broken

LL = "/usr/lib/llvm-18/bin/"
NAMES = ("make_fcontext", "jump_fcontext", "ontop_fcontext")
ASM = os.path.join(REPO, "src", "asm")


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode, r.stdout, r.stderr


# ------------------------------------------------------------------ build/Jamfile.v2
def jam():
    p = os.path.join(REPO, "build", "Jamfile.v2")
    if not os.path.exists(p):
        raise Broken("build/Jamfile.v2 is gone")
    t = re.sub(r"#[^\n]*", "", open(p).read())
    out = []
    for m in re.finditer(r"\balias\s+asm_sources\s*:(.*?)\s;", t, re.S):
        parts = re.split(r"\s:(?:\s|$)", m.group(1))
        src = parts[0].split()
        prop = parts[1].split() if len(parts) > 1 else []
        out.append(("b2 " + "".join(sorted(prop)), tuple(sorted(prop)), ["src/" + s for s in src]))
    return out


# ------------------------------------------------------------------ CMakeLists.txt
TOK = re.compile(r'"((?:[^"\\]|\\.)*)"|([^\s()"]+)|([()])')


class CMake:
    """the subset of the language the source selection is written in; anything else that could matter is an error"""
    IGN = {"message", "cmake_minimum_required", "project", "set_source_files_properties", "target_include_directories", "target_link_libraries", "target_compile_definitions", "target_compile_options",
           "target_compile_features", "enable_language", "add_subdirectory", "add_library_alias", "include", "mark_as_advanced", "option", "find_package", "set_target_properties", "install", "target_sources"}

    def __init__(self, text, env):
        self.v = dict(env)
        self.lists = {}
        self.props = {}
        self.libs = []
        self.langs = []
        cmds = []
        t = re.sub(r"#\[\[.*?\]\]", "", text, flags=re.S)
        t = "\n".join(self.strip(l) for l in t.splitlines())
        i = 0
        pat = re.compile(r"([A-Za-z_]\w*)\s*\(")
        while True:
            m = pat.search(t, i)
            if not m:
                break
            d, j, args = 1, m.end(), []
            while d:
                k = TOK.search(t, j)
                if not k:
                    raise Broken("CMakeLists.txt: unbalanced parenthesis")
                j = k.end()
                if k.group(3) == "(":
                    d += 1
                    args.append(("(", False))
                elif k.group(3) == ")":
                    d -= 1
                    if d:
                        args.append((")", False))
                elif k.group(1) is not None:
                    args.append((k.group(1), True))
                else:
                    args.append((k.group(2), False))
            cmds.append((m.group(1).lower(), args))
            i = j
        self.cmds = cmds
        self.run(0, len(cmds), True)

    @staticmethod
    def strip(l):
        q = False
        for i, c in enumerate(l):
            if c == '"':
                q = not q
            if c == "#" and not q:
                return l[:i]
        return l

    def sub(self, s):
        for _ in range(20):
            n = re.sub(r"\$\{([\w.-]+)\}", lambda m: self.v.get(m.group(1), ""), s)
            if n == s:
                return n
            s = n
        return s

    def args(self, a):
        out = []
        for s, q in a:
            e = self.sub(s)
            if q:
                out.append(e)
            else:
                out += [x for x in e.split(";") if x != ""]
        return out

    def val(self, x):
        s, q = x
        e = self.sub(s)
        if not q and e in self.v:
            return self.v[e]
        return e

    def truth(self, x):
        s, q = x
        e = self.sub(s)
        u = e.upper()
        if u in ("1", "ON", "YES", "TRUE", "Y"):
            return True
        if u in ("", "0", "OFF", "NO", "FALSE", "N", "IGNORE", "NOTFOUND"):
            return False
        if re.fullmatch(r"-?\d+", e):
            return int(e) != 0
        if q:
            return False
        w = self.v.get(e, "").upper()
        return w not in ("", "0", "OFF", "NO", "FALSE", "N", "IGNORE", "NOTFOUND") and not w.endswith("-NOTFOUND")

    def cond(self, a):
        a = list(a)

        def orx():
            r = andx()
            while a and a[0] == ("OR", False):
                a.pop(0)
                q = andx()
                r = r or q
            return r

        def andx():
            r = notx()
            while a and a[0] == ("AND", False):
                a.pop(0)
                q = notx()
                r = r and q
            return r

        def notx():
            if a and a[0] == ("NOT", False):
                a.pop(0)
                return not notx()
            return prim()

        def prim():
            x = a.pop(0)
            if x == ("(", False):
                r = orx()
                if a.pop(0) != (")", False):
                    raise Broken("CMakeLists.txt: cannot parse a condition")
                return r
            if x == ("EXISTS", False):
                return os.path.exists(self.sub(a.pop(0)[0]))
            if x in (("TARGET", False), ("COMMAND", False), ("POLICY", False)):
                a.pop(0)
                return False
            if x == ("DEFINED", False):
                return self.sub(a.pop(0)[0]) in self.v
            if a and not a[0][1] and a[0][0] in ("STREQUAL", "MATCHES", "IN_LIST", "EQUAL", "LESS", "GREATER", "LESS_EQUAL", "GREATER_EQUAL", "VERSION_LESS", "VERSION_GREATER", "VERSION_GREATER_EQUAL"):
                op = a.pop(0)[0]
                y = a.pop(0)
                l = self.val(x)
                if op == "STREQUAL":
                    return l == self.val(y)
                if op == "MATCHES":
                    return re.search(self.sub(y[0]), l) is not None
                if op == "IN_LIST":
                    return l in self.v.get(self.sub(y[0]), "").split(";")
                if op.startswith("VERSION"):
                    return "GREATER" in op
                try:
                    p, q = int(l or 0), int(self.val(y) or 0)
                except ValueError:
                    return False
                return {"EQUAL": p == q, "LESS": p < q, "GREATER": p > q, "LESS_EQUAL": p <= q, "GREATER_EQUAL": p >= q}[op]
            return self.truth(x)
        r = orx()
        if a:
            raise Broken("CMakeLists.txt: cannot parse a condition near %r" % (a[0],))
        return r

    def run(self, i, j, live):
        while i < j:
            c, a = self.cmds[i]
            if c == "if":
                # split into branches
                d, k, br = 0, i, [(i, a, "if")]
                while True:
                    k += 1
                    if k >= j:
                        raise Broken("CMakeLists.txt: if without endif")
                    n = self.cmds[k][0]
                    if n == "if":
                        d += 1
                    elif n == "endif":
                        if d == 0:
                            break
                        d -= 1
                    elif n in ("elseif", "else") and d == 0:
                        br.append((k, self.cmds[k][1], n))
                done = False
                for x, (s, ca, kind) in enumerate(br):
                    e = br[x + 1][0] if x + 1 < len(br) else k
                    if not done and (kind == "else" or self.cond(ca)):
                        done = True
                        self.run(s + 1, e, live)
                i = k + 1
                continue
            if c == "foreach":
                d, k = 0, i
                while True:
                    k += 1
                    n = self.cmds[k][0]
                    d += (n == "foreach") - (n == "endforeach")
                    if d < 0:
                        break
                v = self.args(a)
                items = v[1:]
                if items[:1] == ["IN"]:
                    items = items[1:]
                    out, mode = [], None
                    for x in items:
                        if x in ("LISTS", "ITEMS"):
                            mode = x
                        elif mode == "LISTS":
                            out += self.v.get(x, "").split(";")
                        else:
                            out.append(x)
                    items = out
                for x in items:
                    self.v[v[0]] = x
                    self.run(i + 1, k, live)
                i = k + 1
                continue
            self.cmd(c, a)
            i += 1

    def cmd(self, c, a):
        v = self.args(a)
        if c == "set":
            n, rest = v[0], v[1:]
            if "CACHE" in rest:
                rest = rest[:rest.index("CACHE")]
                if n in self.v:
                    return
            if "PARENT_SCOPE" in rest:
                rest.remove("PARENT_SCOPE")
            if rest:
                self.v[n] = ";".join(rest)
            else:
                self.v.pop(n, None)
        elif c == "unset":
            self.v.pop(v[0], None)
        elif c == "list" and v[0] in ("APPEND", "PREPEND"):
            o = [x for x in self.v.get(v[1], "").split(";") if x]
            self.v[v[1]] = ";".join(o + v[2:] if v[0] == "APPEND" else v[2:] + o)
        elif c == "math":
            m = re.fullmatch(r"\s*(\d+)\s*\*\s*(\d+)\s*", v[2])
            if not m:
                raise Broken("CMakeLists.txt: cannot evaluate math(%s)" % v[2])
            self.v[v[1]] = str(int(m.group(1)) * int(m.group(2)))
        elif c == "string" and v[0] in ("TOLOWER", "TOUPPER"):
            self.v[v[2]] = v[1].lower() if v[0] == "TOLOWER" else v[1].upper()
        elif c == "set_property":
            if v[0] == "CACHE" and "PROPERTY" in v and "STRINGS" in v:
                self.props[v[1]] = v[v.index("STRINGS") + 1:]
        elif c == "add_library":
            if "ALIAS" not in v:
                self.libs.append([x for x in v[1:] if x not in ("STATIC", "SHARED", "MODULE", "OBJECT")])
        elif c in self.IGN:
            if c == "enable_language":
                self.langs += v
            if c == "target_sources":
                self.libs.append([x for x in v[1:] if x not in ("PRIVATE", "PUBLIC", "INTERFACE")])
        else:
            raise Broken("CMakeLists.txt: command %s is not modelled" % c)


LINUX = {"UNIX": "1", "CMAKE_CXX_COMPILER_ID": "GNU", "CMAKE_SYSTEM_NAME": "Linux", "CMAKE_CXX_PLATFORM_ID": "Linux"}
MAC = {"UNIX": "1", "APPLE": "1", "CMAKE_CXX_COMPILER_ID": "AppleClang", "CMAKE_SYSTEM_NAME": "Darwin", "CMAKE_CXX_PLATFORM_ID": "Darwin"}
MSVC = {"WIN32": "1", "MSVC": "1", "CMAKE_CXX_COMPILER_ID": "MSVC", "CMAKE_SYSTEM_NAME": "Windows", "CMAKE_CXX_PLATFORM_ID": "Windows"}
MINGW = {"WIN32": "1", "MINGW": "1", "CMAKE_CXX_COMPILER_ID": "GNU", "CMAKE_SYSTEM_NAME": "Windows", "CMAKE_CXX_PLATFORM_ID": "MinGW"}
# what CMake reports on the platforms doc/architectures.qbk documents as supported; expected (architecture, format)
PLATFORMS = [
    ("linux x86_64", LINUX, "x86_64", 8, "x86_64", "elf"), ("linux i686", LINUX, "i686", 4, "i386", "elf"), ("linux i386", LINUX, "i386", 4, "i386", "elf"),
    ("linux x86_64 -m32", LINUX, "i686", 4, "i386", "elf"),
    ("linux aarch64", LINUX, "aarch64", 8, "arm64", "elf"), ("linux armv7l", LINUX, "armv7l", 4, "arm", "elf"), ("linux arm", LINUX, "arm", 4, "arm", "elf"), ("freebsd arm64", LINUX, "arm64", 8, "arm64", "elf"),
    ("linux riscv64", LINUX, "riscv64", 8, "riscv64", "elf"), ("linux s390x", LINUX, "s390x", 8, "s390x", "elf"), ("linux loongarch64", LINUX, "loongarch64", 8, "loongarch64", "elf"),
    ("linux mips", LINUX, "mips", 4, "mips32", "elf"), ("linux mipsel", LINUX, "mipsel", 4, "mips32", "elf"), ("linux mips64", LINUX, "mips64", 8, "mips64", "elf"), ("linux mips64el", LINUX, "mips64el", 8, "mips64", "elf"),
    ("linux ppc64le", LINUX, "ppc64le", 8, "ppc64", "elf"), ("linux ppc64", LINUX, "ppc64", 8, "ppc64", "elf"), ("linux ppc", LINUX, "ppc", 4, "ppc32", "elf"), ("freebsd powerpc64", LINUX, "powerpc64", 8, "ppc64", "elf"),
    ("linux sparc64", LINUX, "sparc64", 8, "sparc64", "elf"),
    ("macos x86_64", MAC, "x86_64", 8, "x86_64", "macho"), ("macos arm64", MAC, "arm64", 8, "arm64", "macho"),
    ("windows msvc AMD64", MSVC, "AMD64", 8, "x86_64", "pe"), ("windows msvc x86", MSVC, "x86", 4, "i386", "pe"), ("windows msvc ARM64", MSVC, "ARM64", 8, "arm64", "pe"), ("windows msvc ARM", MSVC, "ARM", 4, "arm", "pe"),
    ("windows mingw AMD64", MINGW, "AMD64", 8, "x86_64", "pe"), ("windows mingw x86", MINGW, "x86", 4, "i386", "pe"),
]


def file_arch(n):
    m = re.match(r"(?:make|jump|ontop)_(.+?)_(?:sysv|aapcs|ms|o32|n64)_(elf|macho|pe|xcoff)_", os.path.basename(n))
    return (m.group(1), m.group(2)) if m else ("?", "?")


def cmake(chk, props):
    p = os.path.join(REPO, "CMakeLists.txt")
    if not os.path.exists(p):
        raise Broken("CMakeLists.txt is gone")
    text = open(p).read()
    out, offered = [], []
    for name, env, proc, size, arch, fmt in PLATFORMS:
        e = dict(env)
        e.update(CMAKE_SYSTEM_PROCESSOR=proc, CMAKE_SIZEOF_VOID_P=str(size), boost_context_SOURCE_DIR=REPO, CMAKE_CURRENT_SOURCE_DIR=REPO)
        c = CMake(text, e)
        src = [s for l in c.libs for s in l if s.startswith("src/asm/")]
        fa = {file_arch(s) for s in src if not s.endswith(".cpp")}
        where = "cmake on " + name
        chk.ob("C19: the build selects the assembler sources of the platform it runs on", where, fa == {(arch, fmt)}, "CMakeLists.txt selects %s" % (src or "no assembler source"), "CMakeLists.txt")
        out.append((where, None, src))
        offered = c.props.get("BOOST_CONTEXT_ARCHITECTURE", offered)
    if not offered:
        raise Broken("CMakeLists.txt offers no architecture list")
    have = {}
    for f in os.listdir(ASM):
        have.setdefault(file_arch(f)[0], set()).add(f.split("_")[0])
    for a in offered:
        chk.ob("C19: every architecture the build offers has switch sources", "cmake option BOOST_CONTEXT_ARCHITECTURE=" + a, have.get(a, set()) >= {"make", "jump", "ontop"}, "src/asm has no complete set of sources for architecture '%s'" % a, "CMakeLists.txt")
    # explicitly selectable: the other implementations compile their own sources and no switch routine
    for impl in ("ucontext", "winfib"):
        e = dict(LINUX if impl == "ucontext" else MINGW)
        e.update(CMAKE_SYSTEM_PROCESSOR="x86_64", CMAKE_SIZEOF_VOID_P="8", boost_context_SOURCE_DIR=REPO, CMAKE_CURRENT_SOURCE_DIR=REPO, BOOST_CONTEXT_IMPLEMENTATION=impl)
        c = CMake(text, e)
        src = [s for l in c.libs for s in l]
        ok = {"src/continuation.cpp", "src/fiber.cpp"} <= set(src) and not any("/asm/" in s for s in src) and all(os.path.exists(os.path.join(REPO, s)) for s in src)
        chk.ob("C19: every selected source exists", "cmake implementation " + impl, ok, str(src), "CMakeLists.txt")
    return out


# ------------------------------------------------------------------ objects
X = ["-x", "assembler-with-cpp", "-DBOOST_CONTEXT_EXPORT="]
ELF = {  # architecture -> [(variant, target, flags)]
    "x86_64": [("", "x86_64-linux-gnu", []), ("cet", "x86_64-linux-gnu", ["-fcf-protection=full", "-DSHADOW_STACK_SYSCALL=1"]), ("tls-guard", "x86_64-linux-gnu", ["-DBOOST_CONTEXT_TLS_STACK_PROTECTOR"]),
               ("tsx", "x86_64-linux-gnu", ["-DBOOST_USE_TSX"]), ("x32", "x86_64-linux-gnux32", [])],
    "i386": [("", "i386-linux-gnu", []), ("tls-guard", "i386-linux-gnu", ["-DBOOST_CONTEXT_TLS_STACK_PROTECTOR"]), ("cet", "i386-linux-gnu", ["-fcf-protection=full"])],
    "arm64": [("", "aarch64-linux-gnu", []), ("bti", "aarch64-linux-gnu", ["-mbranch-protection=standard"])],
    "arm": [("hard float", "armv7a-linux-gnueabihf", []), ("soft float", "armv5te-linux-gnueabi", ["-mfloat-abi=soft"])],
    "loongarch64": [("", "loongarch64-linux-gnu", [])],
    "mips32": [("le", "mipsel-linux-gnu", []), ("be", "mips-linux-gnu", []), ("soft float", "mipsel-linux-gnu", ["-msoft-float"])],
    "mips64": [("le", "mips64el-linux-gnuabi64", []), ("be", "mips64-linux-gnuabi64", []), ("soft float", "mips64el-linux-gnuabi64", ["-msoft-float"])],
    "ppc32": [("", "powerpc-linux-gnu", [])],
    "ppc64": [("elfv2", "powerpc64le-linux-gnu", []), ("elfv1", "powerpc64-linux-gnu", [])],
    "riscv64": [("", "riscv64-linux-gnu", [])],
    "s390x": [("", "s390x-linux-gnu", [])],
    "sparc64": [("", "sparc64-linux-gnu", [])],
}
OTHER = {("x86_64", "macho"): "x86_64-apple-darwin", ("i386", "macho"): "i386-apple-darwin", ("arm64", "macho"): "arm64-apple-darwin", ("arm", "macho"): "armv7-apple-ios",
         ("x86_64", "pe"): "x86_64-pc-windows-gnu", ("i386", "pe"): "i686-pc-windows-gnu", ("arm64", "pe"): "aarch64-pc-windows-gnu"}
FAT = {"combined": ["i386", "x86_64", "ppc32", "ppc64", "arm", "arm64"], "i386_x86_64": ["i386", "x86_64"], "ppc32_ppc64": ["ppc32", "ppc64"]}
MACRO = {"i386": "__i386__", "x86_64": "__x86_64__", "ppc32": "__ppc__", "ppc64": "__ppc64__", "arm": "__arm__", "arm64": "__arm64__"}


def routine(f):
    return os.path.basename(f).split("_")[0] + "_fcontext"


def elf_syms(obj):
    rc, o, e = sh([LL + "llvm-readelf", "-sSW", obj])
    syms, stack = {}, None
    for l in o.splitlines():
        m = re.match(r"\s*\d+:\s+([0-9a-f]+)\s+(\d+)\s+(\w+)\s+(\w+)\s+(\w+)\s+(?:\[[^\]]*\]\s+)?(\w+)\s*(.*)$", l)
        if m and m.group(7):
            syms[m.group(7)] = {"size": int(m.group(2)), "type": m.group(3), "bind": m.group(4), "vis": m.group(5), "def": m.group(6) != "UND", "sec": m.group(6)}
        m = re.match(r"\s*\[\s*\d+\]\s+(\S+)\s+(\w+)\s+[0-9a-f]+\s+[0-9a-f]+\s+[0-9a-f]+\s+\d+\s+([A-Z]*)", l)
        if m and m.group(1) == ".note.GNU-stack":
            stack = m.group(3)
    return syms, stack


def directives(path, defs=()):
    """for formats nothing here can assemble: (labels defined, symbols exported) from the source text after preprocessing"""
    rc, o, e = sh(["clang", "-E", "-P", "-x", "assembler-with-cpp", "-undef"] + ["-D%s=1" % d for d in defs] + [path])
    t = o if rc == 0 else open(path, errors="replace").read()
    labels, glob = [], []
    for l in t.splitlines():
        l = l.split(";")[0] if path.endswith(".asm") else l
        m = re.match(r"^([.\w]+):", l)
        if m:
            labels.append(m.group(1))
        m = re.match(r"^\s*\.globa?l\s+([.\w]+)", l)
        if m:
            glob.append(m.group(1))
        m = re.match(r"^\s*(\w+)\s+(?:PROC|proc)\b(.*)$", l)
        if m:
            labels.append(m.group(1))
            if path.endswith("_masm.asm"):     # masm procedures are public by default
                glob.append(m.group(1))
        m = re.match(r"^\s*(?:EXPORT|PUBLIC)\s+(\w+)", l)
        if m:
            glob.append(m.group(1))
        m = re.match(r"^(\w+)\s*$", l)
        if m and path.endswith("_armasm.asm"):
            labels.append(m.group(1))
    return t, labels, glob, rc, e


def check_file(chk, f, tmp):
    """obligations of one source; returns [(configuration, set of the three names it defines globally)]"""
    arch, fmt = file_arch(f)
    path = os.path.join(REPO, f)
    want = routine(f)
    res, obs = [], []

    def ob(rule, cfg, ok, det):
        obs.append((rule, "%s %s" % (os.path.basename(f), cfg), ok, det, f))
    base = os.path.basename(f)
    if fmt == "elf":
        for var, target, flags in ELF.get(arch, []):
            o = os.path.join(tmp, base + var.replace(" ", "_") + ".o")
            rc, out, err = sh(["clang", "--target=" + target, "-c", "-o", o] + X + flags + [path])
            ob("C19: the source assembles for its platform", target + " " + var, rc == 0, err[:600])
            if rc:
                continue
            syms, stack = elf_syms(o)
            d = {n for n in NAMES if n in syms and syms[n]["def"] and syms[n]["bind"] == "GLOBAL"}
            res.append((target + " " + var, d))
            s = syms.get(want, {"size": 0, "type": "none", "vis": "none"})
            ob("C19: the object defines exactly its routine as a global symbol", target + " " + var, d == {want}, "defines %s globally" % (sorted(d) or "none of the three"))
            ob("C19: the routine has function type and a size", target + " " + var, s["type"] == "FUNC" and s["size"] > 0, "%s has type %s and size %d" % (want, s["type"], s["size"]))
            ob("C19: the routine is not exported from a shared library", target + " " + var, s["vis"] in ("HIDDEN", "INTERNAL"), "visibility of %s is %s" % (want, s["vis"]))
            ob("C19: the object does not ask for an executable stack", target + " " + var, stack is not None and "X" not in stack, "no .note.GNU-stack section" if stack is None else "the .note.GNU-stack section is executable")
            alone = {n for n, x in syms.items() if x["def"] and x["bind"] != "LOCAL" and x["vis"] == "DEFAULT"} - {want}
            ob("C19: nothing else is exported", target + " " + var, not alone, "also exports %s" % sorted(alone))
        if arch not in ELF:
            raise Broken("%s: no assembler target is known for this architecture" % f)
    else:
        pre = "_" if fmt == "macho" or (fmt == "pe" and arch == "i386") else ""
        for a in FAT.get(arch, [arch]):
            t = OTHER.get((a, fmt))
            cfg = "%s %s" % (a, fmt)
            gas = not (base.endswith("_masm.asm") or base.endswith("_armasm.asm"))
            if t and gas:
                o = os.path.join(tmp, base + a + ".o")
                rc, out, err = sh(["clang", "--target=" + t, "-c", "-o", o] + X + [path])
                ob("C19: the source assembles for its platform", t, rc == 0, err[:600])
                if rc:
                    continue
                rc, out, err = sh([LL + "llvm-nm", "-g", o])
                d = {l.split()[2][len(pre):] for l in out.splitlines() if len(l.split()) == 3 and l.split()[1] == "T" and l.split()[2].startswith(pre)} & set(NAMES)
            else:
                text, labels, glob, rc, err = directives(path, [MACRO[a]] if a != arch else [])
                if rc and a != arch:
                    ob("C19: the source assembles for its platform", cfg, False, err[:400])
                    continue
                labels = [x[len(pre):] if pre and x.startswith(pre) and fmt == "macho" else x for x in labels]
                glob = [x[len(pre):] if pre and x.startswith(pre) and fmt == "macho" else x for x in glob]
                d = {n for n in NAMES if labels.count(n) == 1 and n in glob}
                dup = [n for n in NAMES if labels.count(n) > 1]
                ob("C19: the routine is defined once", cfg, not dup, "%s defined more than once" % dup)
                cfg += " (directives)"
            res.append((cfg, d))
            ob("C19: the object defines exactly its routine as a global symbol", cfg, d == {want}, "defines %s globally" % (sorted(d) or "none of the three"))
    return f, res, obs


def needs_tail(f, seen=()):
    if f in seen:
        return False
    path = os.path.join(REPO, f)
    if not os.path.exists(path) or file_arch(f)[0] == "combined":     # "combined" is arm+x86 in both build descriptions
        return False
    t = open(path, errors="replace").read()
    return "ontop_fcontext_tail" in t or any(needs_tail(os.path.join("src/asm", i), tuple(seen) + (f,)) for i in re.findall(r'#\s*include\s+"([^"]+)"', t))


def run(chk, tier):
    groups = jam()
    if len(groups) < 30:
        raise Broken("build/Jamfile.v2: only %d asm_sources alternatives found" % len(groups))
    nb2 = len(groups)
    seen = {}
    for w, key, src in groups:
        chk.ob("C19: one set of sources per platform", w, key not in seen or seen[key] == src, "two alternatives with the same properties select %s and %s" % (seen.get(key), src), "build/Jamfile.v2")
        seen[key] = src
    groups = groups + cmake(chk, None)
    files = set()
    for w, key, src in groups:
        asm = [s for s in src if s.endswith((".S", ".asm"))]
        where = "build/Jamfile.v2" if w.startswith("b2") else "CMakeLists.txt"
        names = [routine(s) for s in asm]
        chk.ob("C19: the set names each switch routine's source once", w, sorted(names) == sorted(NAMES), "selects %s" % src, where)
        fa = {re.sub(r"^(make|jump|ontop)_", "", os.path.basename(s)) for s in asm}
        chk.ob("C19: the sources of a set belong to one platform", w, len(fa) == 1, "selects %s" % src, where)
        for s in src:
            p = os.path.join(REPO, s)
            if s.endswith("untested.cpp"):
                p = os.path.join(REPO, "src", "untested.cpp")
            ok = os.path.exists(p)
            chk.ob("C19: every selected source exists", w, ok, "%s does not exist" % s, where)
            if ok and s.endswith((".S", ".asm")):
                files.add(s)
        if any(needs_tail(s) for s in asm):
            chk.ob("C19: the routine's C++ tail is part of the set", w, any("tail_ontop_ppc32" in s for s in src), "selects %s" % src, where)
    # sources no build description selects: still shipped, still have to be well formed
    for f in sorted(os.listdir(ASM)):
        if f.endswith((".S", ".asm")):
            files.add("src/asm/" + f)
    tmp = tempfile.mkdtemp(prefix="vfplat")
    defs = {}
    try:
        with ThreadPoolExecutor(8) as ex:
            for f, res, obs in ex.map(lambda f: check_file(chk, f, tmp), sorted(files)):
                for o in obs:
                    chk.ob(*o)
                defs[f] = res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for w, key, src in groups:
        asm = [s for s in src if s.endswith((".S", ".asm")) and s in defs]
        cfgs = {}
        for s in asm:
            for c, d in defs[s]:
                cfgs.setdefault(c, []).extend(sorted(d))
        for c, ns in cfgs.items():
            chk.ob("C19: the set defines the three routines exactly once", "%s, %s" % (w, c), sorted(ns) == sorted(NAMES), "defined: %s" % ns)
    chk.unit("b2 alternatives", nb2)
    chk.unit("CMake platforms evaluated", len(PLATFORMS))
    chk.unit("assembler sources inspected", len(files))
