#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds_*.py and confirms each: the patch applies, changes original lines only,
the demonstration passes on the unchanged tree and fails with the patch.
usage: mkseeds.py [--check] [--suite] [id ...]   --check: also run the property's check against the planted bug (in /repo, undone afterwards)
                                                 --suite: also build and run the repository's tests with the bug"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = "/verif/seeded"
ORIG = "3659672"
HEAD = """#!/bin/bash
# run with cwd = the repository; exit 0: behaves as documented
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
A=$repo/src/asm
FC="$A/make_x86_64_sysv_elf_gas.S $A/jump_x86_64_sysv_elf_gas.S $A/ontop_x86_64_sysv_elf_gas.S $repo/src/fcontext.cpp $repo/src/posix/stack_traits.cpp"
UC="$repo/src/fiber.cpp $repo/src/continuation.cpp $repo/src/posix/stack_traits.cpp"
"""

def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=type(cmd) is str, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_*.py"))):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out

def demo_sh(s):
    impl = {"fc": "$FC", "uc": "-DBOOST_USE_UCONTEXT $UC"}
    t = HEAD
    if "script" in s:
        return t + s["script"]
    flags = s.get("flags", "")
    for i, impls in enumerate(s.get("impl", "fc").split(",")):
        t += 'g++ -std=%s %s -w -I"$repo/include" "$here/demo.cpp" %s -lpthread -o "$tmp/demo%d" || { echo "demo does not compile"; exit 2; }\n' % (s.get("std", "c++17"), ("-O1 " if "-O" not in flags else "") + flags, impl[impls], i)
        t += 'timeout 120 "$tmp/demo%d"; rc=$?\n[ $rc -eq 0 ] || { echo "demonstration failed ($rc)"; exit 1; }\n' % i
    return t + "exit 0\n"

def main():
    a = sys.argv[1:]
    opt = [x for x in a if x.startswith("--")]
    ids = [x for x in a if not x.startswith("--")]
    seeds = load()
    for i in ids or seeds:
        s = seeds[i]
        base = tempfile.mkdtemp(prefix="seed")
        r = os.path.join(base, "repo")
        try:
            sh("git -C /repo worktree prune; git clone -q --no-hardlinks /repo %s" % r)
            bad = []
            for f, old, new in s["edits"]:
                p = os.path.join(r, f)
                t = open(p).read()
                if t.count(old) != s.get("count", 1):
                    bad.append("%s: %d matches" % (f, t.count(old)))
                open(p, "w").write(t.replace(old, new))
            d = sh("git diff", r).stdout
            if not d or bad:
                print(i, "EDIT", bad or "empty diff")
                continue
            # every removed line must be an original one
            for f in {e[0] for e in s["edits"]}:
                bl = sh(["git", "blame", "-l", "-s", "HEAD", "--", f], r).stdout.split("\n")
                orig = sh("git rev-list %s" % ORIG, r).stdout.split()
                orig = set(orig)
                dd = sh(["git", "diff", "-U0", "--", f], r).stdout.split("\n")
                for h in dd:
                    if h.startswith("@@"):
                        o = h.split()[1][1:].split(",")
                        n0, n = int(o[0]), int(o[1]) if len(o) > 1 else 1
                        for ln in range(n0, n0 + n):
                            c = bl[ln - 1].split()[0].lstrip("^")
                            if not any(x.startswith(c[:39]) for x in orig):
                                print(i, "NOT-ORIGINAL %s:%d %s" % (f, ln, bl[ln - 1][41:]))
                        if n == 0:
                            print(i, "pure insertion hunk", h)
            # assembler sources do not count as planted bugs; kept apart
            out = os.path.join(HERE if not all(e[0].startswith("src/asm/") for e in s["edits"]) else "/verif/seeded_asm", i)
            if os.path.isdir(out):
                shutil.rmtree(out)
            os.makedirs(out)
            open(out + "/patch.diff", "w").write(d)
            if "cpp" in s:
                open(out + "/demo.cpp", "w").write(s["cpp"])
            open(out + "/demo.sh", "w").write(demo_sh(s))
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            bugged = sh(["bash", out + "/demo.sh"], r)
            sh("git checkout -q .", r)
            clean = sh(["bash", out + "/demo.sh"], r)
            ok = clean.returncode == 0 and bugged.returncode != 0 and ("does not compile" not in bugged.stdout or s.get("compile_fails"))
            print(i, s["property"], "demo", "ok" if ok else "FAIL", "clean", clean.returncode, "bug", bugged.returncode, "|", (clean.stdout[-300:] if clean.returncode else "").strip(), "|", "" if ok and bugged.stdout else bugged.stdout[-600:].strip())
        finally:
            shutil.rmtree(base, ignore_errors=True)
        if "--check" in opt or "--suite" in opt:
            assert not sh("git -C /repo status --short").stdout
            ap = sh("git -C /repo apply %s/patch.diff" % out)
            try:
                assert ap.returncode == 0, ap.stdout
                if "--check" in opt:
                    c = sh("/verif/check %s --tier quick" % s["property"], "/verif")
                    v = [l[:260] for l in c.stdout.split("\n") if "violated:" in l][:2]
                    print("   check exit", c.returncode, "VIOLATION" if ("VIOLATION property=%s" % s["property"]) in c.stdout else "-- MISSED", v if c.returncode == 1 else c.stdout[-400:])
                if "--suite" in opt:
                    b = sh("bash /opt/vp/build.sh")
                    o = tempfile.mktemp(suffix=".json")
                    t = sh("bash /opt/vp/test.sh " + o)
                    base = json.load(open("/opt/vp/BASELINE.json"))
                    try:
                        j = json.load(open(o))
                        os.unlink(o)
                    except Exception as e:
                        j = {}
                    want = base["stable"]
                    got = set(j.get("passed", []))
                    miss = [x for x in want if x not in got]
                    print("   build", b.returncode, "tests lost:", miss[:6] if miss else "none", len(want))
            finally:
                sh("git -C /repo checkout -- .")
        sys.stdout.flush()

main()
