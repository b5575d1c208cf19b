import os, sys, traceback
from vf.report import Check, Broken

ASM_NOTE = ("Herbrand-value dataflow over the assembled objects of every switch routine an assembler here reads (34 configurations): registers and stack slots are propagated "
            "symbol-for-symbol through the control flow of make/jump/ontop, and each suspend/resume composition must deliver the required symbol.")
ASM_TCB = ["clang integrated assembler and llvm-objdump decode the sources as the platform tools do", "the calling-convention tables in asmflow/x86abi.py and asmflow/riscabi.py",
           "the transfer functions of asmflow/x86.py and asmflow/risc.py (an unknown instruction is an error, not a pass)"]
IR_NOTE = ("Interprocedural ownership/typestate dataflow over the LLVM IR of /repo's sources instantiated by client drivers: abstract states (object lifetimes, memory regions, "
           "suspended contexts, affine integers) are propagated through calls, exceptions and context switches and merged at the clients' loop heads until a fixpoint; "
           "every rule instance below was decided on every path of every configuration listed in units.")
IR_TCB = ["clang's translation of the C++ sources to LLVM IR (-O1 without passes)", "the models of the switch routines (decided separately by C01-C03), ucontext, "
          "libc, libstdc++ and the sanitizer/split-stack hooks in irflow/natives.py", "clients behave as the drivers' nondeterministic choices (at most two contexts besides main at a time)"]


def asm(props):
    def f(chk, tier):
        from vf import asmcheck
        asmcheck.run_asm(chk, props)
    return f


def ir(*plans, **kw):
    def f(chk, tier):
        from vf import plans as P, ircheck
        us = []
        for p in plans:
            us += getattr(P, p)(tier)
        ircheck.run_units(chk, us, chk.prop, **kw)
    return f


def part(mod):
    def f(chk, tier):
        import importlib
        importlib.import_module("vf." + mod).run(chk, tier)
    return f


def witness(prop):
    def f(chk, tier):
        from vf import witness as w
        (w.fallbacks if prop == "C17" else w.handles(prop))(chk, tier)
    return f


FP_NOTE = (" The C++ layer above the routines (exported wrappers, handles) is decided by the IR analysis: it forwards stack, size and function, and on no path sets the floating-point control words.")
WIT = " Type-level part: static assertions over the handle types in witness/, decided by clang's type checker in every language mode."


PLAT_NOTE = ("Build lint: the asm_sources alternatives of build/Jamfile.v2 and the source selection of CMakeLists.txt (evaluated for every documented platform) are "
             "enumerated; every assembler source is assembled for its own target (every preprocessor configuration) and its symbol table and section flags are inspected; "
             "sources in formats no assembler here understands are judged on their directives.")
PLAT_TCB = ["the table of platforms and what CMake reports on them (from doc/architectures.qbk)", "clang's assemblers for the foreign targets accept what the platform assemblers accept",
            "masm, armasm, XCOFF and PowerPC Mach-O sources: directives are parsed, not assembled"]

# property -> (parts, level, note, assumptions, minimum number of obligations)
TABLE = {
    "C01": ([asm(["C01"]), ir("raw", "life", generic=False)], "proof", ASM_NOTE + FP_NOTE, ASM_TCB + IR_TCB, 200),
    "C02": ([asm(["C02"]), ir("raw"), ir("life2", generic=False)], "proof", ASM_NOTE + FP_NOTE, ASM_TCB + IR_TCB, 100),
    "C03": ([asm(["C03"]), ir("life", "life2", "raw", "tail", "ontop", "make")], "other", ASM_NOTE + " " + IR_NOTE, ASM_TCB + IR_TCB, 100),
    "C04": ([ir("ontop", "unw")], "other", IR_NOTE, IR_TCB, 100),
    "C05": ([ir("life", "life2", "assign", "ontop"), witness("C05")], "other", IR_NOTE + WIT, IR_TCB, 50),
    "C06": ([ir("life", "life2", "exc_ok", "assign", "ontop", "unw")], "other", IR_NOTE, IR_TCB, 50),
    "C07": ([ir("life", "life2", "assign", "make", "ontop", "unw")], "other", IR_NOTE, IR_TCB, 50),
    "C08": ([ir("exc", "unw")], "other", IR_NOTE, IR_TCB, 50),
    "C09": ([ir("alloc"), witness("C09")], "other", IR_NOTE + WIT, IR_TCB, 50),
    "C10": ([ir("guard")], "other", IR_NOTE, IR_TCB, 20),
    "C11": ([ir("place")], "other", IR_NOTE, IR_TCB, 20),
    "C12": ([ir("pool")], "other", IR_NOTE, IR_TCB, 20),
    "C13": ([ir("fail")], "other", IR_NOTE, IR_TCB, 20),
    "C14": ([ir("thread"), part("tlslint")], "other", IR_NOTE, IR_TCB, 20),
    "C15": ([ir("san")], "other", IR_NOTE, IR_TCB, 20),
    "C16": ([ir("traits")], "other", IR_NOTE, IR_TCB, 20),
    "C17": ([witness("C17"), ir("fallb")], "other", IR_NOTE + WIT, IR_TCB, 200),
    "C18": ([asm(["C18"]), ir("eff"), part("effcontrol"), part("effclosure")], "other", ASM_NOTE + " " + IR_NOTE, ASM_TCB + IR_TCB, 20),
    "C19": ([part("platlint")], "other", PLAT_NOTE, PLAT_TCB, 400),
    "C20": ([ir("obs"), witness("C20")], "other", IR_NOTE + WIT, IR_TCB, 20),
    "C21": ([ir("life", "place", "make", "assign"), witness("C21")], "other", IR_NOTE + WIT, IR_TCB, 20),
    "C22": ([ir("life", "make", "place"), witness("C22")], "other", IR_NOTE + WIT, IR_TCB, 20),
}


COMP_NOTE = ("Composition lint: translation units made of every documented header alone, in pairs and all together, in both orders, in every backend, option and language mode are type-checked by "
             "both compilers; symbol tables of unlinked objects show what headers and library define and leave undefined.")
TABLE["C23"] = ([part("compose")], "other", COMP_NOTE, ["gcc and clang accept what other compilers accept", "Windows headers are replaced by the declarations in winstub/", "generated translation units use clients from drivers/"], 200)


def programs(chk, tier):
    from vf import witness as w
    w.programs(chk, tier)


TABLE["C24"] = ([programs], "other", "Witness programs: snippets over callables, allocators and handle uses are put to clang's type checker for every backend, handle type and language mode; "
                "each diagnostic is attributed to the snippet it belongs to, an accept-snippet must have none and a reject-snippet must have one.",
                ["clang accepts what other compilers accept", "Windows headers are replaced by the declarations in winstub/", "the snippets of witness/programs.cpp stand for the documented programs"], 2000)


def run_check(prop, tier, seed):
    if prop not in TABLE:
        raise Broken("no check for %s" % prop)
    parts, level, note, tcb, least = TABLE[prop]
    chk = Check(prop, tier, seed)
    for p in parts:
        p(chk, tier)
    return chk.finish(level, note, tcb, least)


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return run_check(prop, tier, seed)
    except Broken as e:
        print("analysis broken: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
