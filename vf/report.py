"""Common bookkeeping of a check: obligations, violations, known findings, evidence, exit code."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
KNOWN = os.path.join(HERE, "known-findings.json")


class Broken(Exception):
    """the analysis itself cannot give an answer (vanished anchor, unmodelled construct)"""


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.n = 0
        self.ok = 0
        self.rules = {}
        self.units = {}
        self.bad = []
        self.notes = []
        self.undecided = []
        self.samples = []
        self.extra = {}

    def ob(self, rule, where, ok, detail="", site="", key=None):
        """one decided obligation"""
        self.n += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.ok += 1
            r[1] += 1
            if r[0] == 1 and len(self.samples) < 40:
                self.samples.append("%s @ %s" % (rule, where))
        else:
            self.bad.append({"rule": rule, "where": where, "detail": detail, "site": site, "key": key or "%s|%s|%s" % (rule, where, site)})
        return ok

    def unit(self, name, n=1):
        self.units[name] = self.units.get(name, 0) + n

    def finish(self, level, technique_note, assumptions, min_obligations=1):
        known = json.load(open(KNOWN)) if os.path.exists(KNOWN) else []
        open_known = [k for k in known if k.get("property") == self.prop and k.get("status") == "open"]
        new, matched = [], {}
        for b in self.bad:
            for k in open_known:
                if all(s in (b["rule"] + " | " + b["where"] + " | " + b["detail"] + " | " + str(b["site"])) for s in k["match"]):
                    matched.setdefault(k["what"], []).append(b)
                    break
            else:
                new.append(b)
        wall = round(time.time() - self.t0, 2)
        cov = {"explanation": technique_note, "obligations": self.n, "discharged": self.ok,
               "rules": {k: {"instances": v[0], "held": v[1]} for k, v in sorted(self.rules.items())},
               "units": dict(sorted(self.units.items())), "samples": self.samples[:25]}
        if self.undecided:
            cov["undecided"] = self.undecided[:40]
        cov.update(self.extra)
        if level == "proof":
            cov["checker_cmd"] = "./check %s --tier %s" % (self.prop, self.tier)
            cov["trusted_base"] = assumptions
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": wall, "violations": len(new)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1, default=str)
        for w, bs in sorted(matched.items()):
            print("KNOWN-FINDING: property=%s %s (%d sites)" % (self.prop, w, len(bs)))
        print("%s: %d obligations, %d held, %d violated (%d known), %.1fs" % (self.prop, self.n, self.ok, len(self.bad), len(self.bad) - len(new), wall))
        if new:
            rp = os.path.join(HERE, "evidence", "replay", "%s.txt" % self.prop)
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            with open(rp, "w") as f:
                for b in new:
                    f.write("rule:   %s\nwhere:  %s\nsite:   %s\ndetail: %s\n\n" % (b["rule"], b["where"], b["site"], b["detail"]))
            for b in new[:12]:
                print("  violated: %s\n    at %s %s\n    %s" % (b["rule"], b["where"], b["site"], b["detail"][:1500]))
            if len(new) > 12:
                print("  ... %d more in %s" % (len(new) - 12, rp))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.n < min_obligations:
            print("analysis broken: only %d obligations decided, at least %d expected" % (self.n, min_obligations))
            return 3
        return 0
