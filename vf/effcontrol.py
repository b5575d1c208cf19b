"""positive control of the effect rule: the ucontext implementation's swapcontext saves the signal mask with a system call and must be reported"""
from vf.ircheck import impl_units, _one
from vf.report import Broken


def run(chk, tier):
    for u in impl_units("eff", ["drv_eff"], impls=("uc",), kinds=("f",)):
        r = _one(u)
        if r["error"] or r["compile"]:
            raise Broken("%s: %s" % (r["unit"], r["error"] or r["compile"]))
        if not any(v["cat"] == "effect" for x in r["runs"] for v in x["violations"]):
            raise Broken("the effect rule does not see the system call of swapcontext")
        chk.unit("positive controls passed")
