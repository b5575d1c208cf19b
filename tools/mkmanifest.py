"""regenerates MANIFEST.json from vf/main.py's table and the notes below"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf.main import TABLE
T_ASM = "Herbrand-value dataflow over the assembled switch routines"
T_IR = "interprocedural ownership/typestate dataflow over LLVM IR to a fixpoint"
N_IR = "decided for every path of the client drivers through fcontext and ucontext, fiber and continuation; trusts clang's IR and the models of switch routines, ucontext and runtime in irflow/natives.py; "
NOTES = {
    "C01": (T_ASM + " + " + T_IR, "every routine an assembler here reads (34 configurations of x86, Arm, RISC-V, LoongArch, MIPS, PowerPC, s390x, SPARC), all register contents; PowerPC Mach-O/XCOFF not interpreted; C++ layer above the routines on IR"),
    "C02": (T_ASM + " + " + T_IR, "same 34 configurations, (sp,size,fn) symbolic; PowerPC Mach-O/XCOFF not interpreted; C++ layer above the routines on IR"),
    "C03": (T_ASM + " + " + T_IR, N_IR + "assembler: same 34 configurations as C01"),
}
NOTES["C17"] = ("static_assert witnesses decided by the type checker + " + T_IR, "call forms and types enumerated in witness/fallbacks.cpp; evaluation decided on IR in drivers/fallb.cpp, C++11/14/17")
NOTES["C18"] = (T_ASM + " + effect analysis over LLVM IR and a call-graph closure of the switch path", N_IR + "assembler: same 34 configurations as C01; a positive control shows the effects are seen")
NOTES["C19"] = ("build-description lint with symbol-table inspection of every assembled source", "masm, armasm, XCOFF and PowerPC Mach-O sources are judged on their directives, not assembled; platforms are those doc/architectures.qbk lists")
NOTES["C23"] = ("composition lint: type checking of generated header selections and symbol-table closure of unlinked objects", "documented headers; gcc and clang; Windows API declarations replaced by winstub/")
NOTES["C24"] = ("witness programs decided by the type checker: accepted or rejected on every backend in every language mode", "programs enumerated in witness/programs.cpp; clang; Windows API declarations replaced by winstub/; move-only injected functions are outside the statement")
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    if p in TABLE:
        t, n = NOTES.get(p, (T_IR, N_IR + "see DESIGN.md " + p))
        m["checks"].append({"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p, "technique": t, "level": TABLE[p][1], "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check registered yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
