import json, os, sys, time
from facts import VERIF, Broken

KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obs = []          # (rule, instance, ok)
        self.viol = {}         # key -> text
        self.cov = {}
        self.assume = []
        self.explain = ""
        self.lost = None       # anchor the analysis could not find

    def ob(self, rule, instance, ok, text=None, key=None):
        """one obligation; a failed one is a violation"""
        self.obs.append((rule, instance, bool(ok)))
        if not ok:
            self.viol.setdefault(key or ("%s | %s" % (rule, instance)), text or instance)
        return ok

    def violation(self, rule, instance, text, key=None):
        self.ob(rule, instance, False, text, key)

    def floor(self, what, n, least):
        """instance counts confirmed by reading: fewer means the analysis lost its anchor"""
        self.cov[what] = n
        if n < least:
            self.lost = self.lost or ("%s: %d found, at least %d expected" % (what, n, least))

    def finish(self, P):
        known = {}
        if os.path.exists(KNOWN):
            for k in json.load(open(KNOWN)).get("known", []):
                if k["property"] == self.pid:
                    known[k["key"]] = k["what"]
        new = {k: t for k, t in self.viol.items() if k not in known}
        seen = [k for k in self.viol if k in known]
        rules = {}
        for r, i, ok in self.obs:
            d = rules.setdefault(r, [0, 0])
            d[0] += 1
            d[1] += ok
        cov = dict(self.cov)
        cov["explanation"] = self.explain
        cov["obligations"] = len(self.obs)
        cov["discharged"] = sum(1 for o in self.obs if o[2])
        cov["rules"] = {r: {"instances": a, "held": b} for r, (a, b) in rules.items()}
        cov["translation_units"] = len(P.tus)
        cov["functions_in_fact_base"] = len(P.funcs)
        step = max(1, len(self.obs) // 12)
        cov["samples"] = ["%s: %s: %s" % (r, i, "holds" if ok else "VIOLATED") for r, i, ok in self.obs[::step]][:14]
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        d = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d hold, %d rules; %s" % (self.pid, len(self.obs), cov["discharged"], len(rules),
              ", ".join("%s=%s" % (k, v) for k, v in self.cov.items() if isinstance(v, int))))
        for k in seen:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]))
        if not self.obs:
            raise Broken("no obligation was generated")
        if new:
            rp = os.path.join(d, self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for k, t in new.items():
                    f.write("[%s]\n  %s\n" % (k, t))
                    print("  violation: [%s] %s" % (k, t))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if self.lost:
            raise Broken(self.lost)
        return 0
