"""C01, C02, C03 and the switch half of C18, decided on the assembler sources."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "asmflow"))
import core
from core import AsmError
from x86abi import *
from riscabi import *
from vf.report import REPO, Broken

L64, L32 = "x86_64-linux-gnu", "i386-linux-gnu"


def x32():
    a = Sysv64()
    a.x32 = True
    return a


# name, abi, source family, extension, target, flags, options
CONFIGS = [
    ("x86_64-elf", Sysv64, "x86_64_sysv_elf_gas", ".S", L64, [], {}),
    ("x86_64-elf-tsx", Sysv64, "x86_64_sysv_elf_gas", ".S", L64, ["-DBOOST_USE_TSX"], {"fp": False}),
    ("x86_64-elf-tls-guard", Sysv64, "x86_64_sysv_elf_gas", ".S", L64, ["-DBOOST_CONTEXT_TLS_STACK_PROTECTOR"], {"guard": 1}),
    ("x86_64-elf-tls-guard-tsx", Sysv64, "x86_64_sysv_elf_gas", ".S", L64, ["-DBOOST_CONTEXT_TLS_STACK_PROTECTOR", "-DBOOST_USE_TSX"], {"guard": 1, "fp": False}),
    ("x86_64-elf-cet", Sysv64, "x86_64_sysv_elf_gas", ".S", L64, ["-fcf-protection=full"], {"ibt": 1}),
    ("x86_64-elf-cet-shstk", Sysv64, "x86_64_sysv_elf_gas", ".S", L64, ["-fcf-protection=full", "-DSHADOW_STACK_SYSCALL=1"], {"ibt": 1, "shstk": 1}),
    ("x86_64-elf-x32", x32, "x86_64_sysv_elf_gas", ".S", "x86_64-linux-gnux32", [], {}),
    ("x86_64-macho", Sysv64, "x86_64_sysv_macho_gas", ".S", "x86_64-apple-darwin", [], {"prefix": "_"}),
    ("x86_64-pe-clang", Ms64, "x86_64_ms_pe_clang_gas", ".S", "x86_64-pc-windows-gnu", [], {"ms64": 1}),
    ("x86_64-pe-gas", Ms64, "x86_64_ms_pe_gas", ".asm", "x86_64-pc-windows-gnu", [], {"ms64": 1}),
    ("x86_64-pe-masm", Ms64, "x86_64_ms_pe_masm", ".asm", None, [], {"ms64": 1, "masm": 64}),
    ("i386-pe-masm", Ms32, "i386_ms_pe_masm", ".asm", None, [], {"masm": 32}),
    ("i386-elf", Sysv32, "i386_sysv_elf_gas", ".S", L32, [], {"got": 1}),
    ("i386-elf-tls-guard", Sysv32, "i386_sysv_elf_gas", ".S", L32, ["-DBOOST_CONTEXT_TLS_STACK_PROTECTOR"], {"guard": 1, "got": 1}),
    ("i386-macho", Darwin32, "i386_sysv_macho_gas", ".S", "i386-apple-darwin", [], {"prefix": "_"}),
    ("i386-pe-clang", Ms32, "i386_ms_pe_clang_gas", ".S", "i686-pc-windows-gnu", [], {"prefix": "_"}),
    ("i386-pe-gas", Ms32, "i386_ms_pe_gas", ".asm", "i686-pc-windows-gnu", [], {"prefix": "_"}),
]

RISC = [
    ("arm64-elf", A64, "arm64_aapcs_elf_gas", ".S", "aarch64-linux-gnu", [], {}),
    ("arm64-macho", A64Mac, "arm64_aapcs_macho_gas", ".S", "arm64-apple-darwin", [], {"prefix": "_"}),
    ("arm64-pe-armclang", A64Pe, "arm64_aapcs_pe_armclang", ".S", "aarch64-pc-windows-gnu", [], {}),
    ("arm64-pe-armasm", A64Pe, "arm64_aapcs_pe_armasm", ".asm", "aarch64-pc-windows-gnu", [], {"armasm": 64}),
    ("arm-elf", A32, "arm_aapcs_elf_gas", ".S", "armv7-linux-gnueabihf", [], {}),
    ("arm-elf-softfp", A32Soft, "arm_aapcs_elf_gas", ".S", "armv7-linux-gnueabi", ["-mfloat-abi=soft", "-D__SOFTFP__"], {}),
    ("arm-macho", A32Mac, "arm_aapcs_macho_gas", ".S", "armv7-apple-ios", [], {"prefix": "_", "objdump": ["--mattr=+v7,+vfp3"]}),
    ("arm-pe-armasm", A32Pe, "arm_aapcs_pe_armasm", ".asm", "armv7-linux-gnueabihf", [], {"armasm": 32}),
    ("riscv64-elf", RV64, "riscv64_sysv_elf_gas", ".S", "riscv64-linux-gnu", [], {}),
    ("loongarch64-elf", LA64, "loongarch64_sysv_elf_gas", ".S", "loongarch64-linux-gnu", [], {}),
    ("mips32-elf", O32, "mips32_o32_elf_gas", ".S", "mips-linux-gnu", ["-fPIC"], {}),
    ("mips64-elf", N64, "mips64_n64_elf_gas", ".S", "mips64-linux-gnuabi64", ["-fPIC"], {}),
    ("ppc32-elf", P32, "ppc32_sysv_elf_gas", ".S", "powerpc-linux-gnu", [], {}),
    ("ppc64-elfv1", P64v1, "ppc64_sysv_elf_gas", ".S", "powerpc64-linux-gnu", [], {}),
    ("ppc64le-elfv2", P64v2, "ppc64_sysv_elf_gas", ".S", "powerpc64le-linux-gnu", [], {}),
    ("s390x-elf", Z64, "s390x_sysv_elf_gas", ".S", "s390x-linux-gnu", [], {}),
    ("sparc64-elf", V9, "sparc64_sysv_elf_gas", ".S", "sparc64-linux-gnu", [], {}),
]


def prop_of(rule):
    r = rule.split(" (")[0]
    if r.startswith("switch uses no system call"):
        return ("C18",)
    if r.startswith("switch calls nothing"):
        return ("C18", "C01")
    if r in ("jump leaves through the target's saved return address", "resume does not overwrite the resumed stack", "stack pointer restored", "resumed at its return address",
             "suspend writes only below the stack pointer") or r.startswith("thread register") or r.startswith("callee-saved") or r.endswith(" restored"):
        return ("C01",)
    if r in ("ontop enters the injected function", "injected function entered", "injected function returns into the suspended call", "injected function gets the resumer's data",
             "injected function gets the resumer's context", "injected function's result becomes the suspended call's", "hidden result pointer returned", "suspended call returns the resumer's data", "suspended call returns the resumer's context") or r.startswith("jump delivers") or r.startswith("ontop delivers") or r.startswith("injected function gets its "):
        return ("C03",)
    return ("C02",)


def run_asm(chk, props):
    src = os.path.join(REPO, "src", "asm")
    tmp = tempfile.mkdtemp(prefix="vfasm")
    try:
        for fn, (name, abi, fam, ext, target, flags, opts) in [(check_family, c) for c in CONFIGS] + [(check_risc, c) for c in RISC]:
            files = {k: os.path.join(src, "%s_%s%s" % (k, fam, ext)) for k in ("jump", "ontop", "make")}
            for p in files.values():
                if not os.path.exists(p):
                    raise Broken("assembler source %s is gone" % p)
            R = Result()
            try:
                n, objs = fn(R, name, abi(), files, target, flags, tmp, opts)
            except AsmError as e:
                raise Broken("%s: %s" % (name, e))
            k = 0
            for (rule, cfg, ok, detail, s) in R.obl:
                if set(prop_of(rule)) & set(props):
                    chk.ob(rule, cfg, ok, detail, os.path.basename(s))
                    k += 1
            chk.unit("configuration " + name, k)
            chk.unit("instructions interpreted", n)
            if k == 0:
                raise Broken("no obligation generated for %s" % name)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
