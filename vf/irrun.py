"""compiles a driver against /repo's current sources and runs the IR analysis on it"""
import os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "irflow"))
from vf.report import REPO, Broken

LLVMNM = "/usr/lib/llvm-18/bin/llvm-nm"
SUP = os.path.join(HERE, "drivers", "sup", "libsup.cpp")
# what drivers/sup/libsup.cpp has a body for
SUPPORT = re.compile(r"_ZNS?K?S?t?.*(15_List_node_base|20_Prime_rehash_policy)|_ZSt(18_Rb_tree_|28_Rb_tree_|29_Rb_tree_|\d+_Rb_tree_|11_Hash_bytes)|_ZNK?St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE|_ZNSt6chrono3_V21[0-9]s\w+_clock3nowEv")
LLVMLINK = "/usr/lib/llvm-18/bin/llvm-link"


class CompileFailed(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def compile_bc(src, out, std, flags):
    cmd = ["clang++", "-std=" + std, "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-discard-value-names", "-emit-llvm", "-c", "-w", "-fPIC",
           "-ftemplate-backtrace-limit=0", "-ferror-limit=5", "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "drivers")] + flags + [src, "-o", out]
    rc, o = sh(cmd)
    if rc:
        raise CompileFailed("%s does not compile (%s %s):\n%s" % (os.path.basename(src), std, " ".join(flags), o[:3000]))


def build(driver, std, flags, tmp, extra_src=()):
    bcs = []
    jobs = [os.path.join(HERE, "drivers", driver + ".cpp")] + [os.path.join(REPO, s) for s in extra_src]
    for s in jobs:
        o = os.path.join(tmp, os.path.basename(s).replace(".cpp", "") + ".bc")
        compile_bc(s, o, std, flags)
        bcs.append(o)
    rc, o = sh([LLVMNM, "-u", "--just-symbol-name"] + bcs)
    if rc == 0 and any(SUPPORT.match(x) for x in o.split()):
        bcs.append(os.path.join(tmp, "libsup.bc"))
        compile_bc(SUP, bcs[-1], std, flags)
    if len(bcs) == 1:
        return bcs[0]
    out = os.path.join(tmp, "all.bc")
    rc, o = sh([LLVMLINK] + bcs + ["-o", out])
    if rc:
        raise Broken("llvm-link: " + o[:2000])
    return out


def analyse(bc, entry, opts=None, max_steps=40000000, deadline=None):
    from engine import Engine, AnalysisError
    from natives import Natives
    from llvmir import Module
    m = Module(bc)
    e = Engine(m, Natives({"opts": opts or {}}), {"max_steps": max_steps, "deadline": deadline})
    e.run(entry)
    return e
