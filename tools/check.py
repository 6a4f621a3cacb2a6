"""check.py <PROPERTY> [quick|thorough]  — decides one property on /repo's current tree by static analysis."""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts  # noqa: E402

VERIF = facts.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.violations = []  # (key, text, detail)
        self.keys = set()
        self.counts = {}
        self.samples = []
        self.obligations = 0
        self.discharged = 0
        self.assumptions = []
        self.rules = {}

    def rule(self, name, text):
        """declare a rule; obligations are counted per rule"""
        self.rules.setdefault(name, {"rule": text, "obligations": 0, "violations": 0})

    def ok(self, rule, n=1, sample=None):
        self.obligations += n
        self.discharged += n
        self.rules.setdefault(rule, {"rule": "", "obligations": 0, "violations": 0})["obligations"] += n
        if sample and len(self.samples) < 60:
            self.samples.append("%s: %s" % (rule, sample))

    def bad(self, rule, key, text, detail=None):
        """a violated obligation.  `key` identifies the construct without line numbers"""
        self.obligations += 1
        r = self.rules.setdefault(rule, {"rule": "", "obligations": 0, "violations": 0})
        r["obligations"] += 1
        r["violations"] += 1
        k = "%s/%s" % (rule, key)
        if k in self.keys:
            return
        self.keys.add(k)
        self.violations.append((k, text, detail))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, rule, what, have, want):
        """fail closed when fewer instances are found than were confirmed by hand"""
        if have < want:
            self.bad(rule, "floor:" + what, "only %d instance(s) of %s found, at least %d expected: the rule no longer "
                     "sees the code it was written for" % (have, what, want))
        else:
            self.ok(rule, 1)


def known_keys(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                if rest.startswith("key="):
                    k, _, txt = rest[4:].partition(" :: ")
                    out[k.strip()] = txt
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    ctx = Ctx(prop, tier)
    if tier == "thorough":
        import equiv
        equiv.thorough()
    try:
        facts.ensure()
    except facts.BuildError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
    import prog
    P = prog.program()
    mod = importlib.import_module("rules." + prop.lower())
    try:
        mod.run(P, ctx)
    except Exception as e:  # the analysis could not establish the property: fail closed
        tb = traceback.format_exc()
        last = traceback.extract_tb(e.__traceback__)[-1]
        ctx.bad("analysis", "%s@%s" % (type(e).__name__, last.name), "the analysis could not be completed (fail "
                "closed): %s" % e, tb)
    known = known_keys(prop)
    fresh = []
    for k, text, detail in ctx.violations:
        if k in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k] or text))
        else:
            fresh.append((k, text, detail))
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": mod.EXPLANATION,
            "obligations": ctx.obligations,
            "discharged": ctx.discharged,
            "checker_cmd": "python3 tools/check.py %s %s" % (prop, tier),
            "trusted_base": ["rustc nightly front end (MIR construction, trait resolution)",
                             "tools/models.py: transfer functions for std",
                             "dependencies outside the workspace behave as documented"],
            "analysed": ctx.counts,
            "rules": ctx.rules,
            "samples": ctx.samples,
            "program": {u: len(c["bodies"]) for u, c in P.crates.items()},
        },
        "assumptions": ctx.assumptions + getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if fresh:
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        for i, (k, text, detail) in enumerate(fresh):
            p = os.path.join(d, "%s-%d.txt" % (prop, i))
            with open(p, "w") as f:
                f.write("property: %s\nkey: %s\n%s\n\n%s\n" % (prop, k, text, detail or ""))
            print("  %s: %s" % (k, text))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        sys.exit(1)
    print("%s holds: %d obligations in %d rules discharged (%.1fs)" % (prop, ctx.discharged, len(ctx.rules),
                                                                     time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
