"""Result bookkeeping shared by all rules: obligations, violations, known findings, evidence."""
import json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, "known-findings.json")


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.obl = []          # (rule, instance, ok)
        self.viol = []         # dicts
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self._keys = set()

    def ok(self, rule, inst):
        self.obl.append((rule, inst, True))

    def bad(self, rule, key, where, text):
        """key identifies the construct without line numbers; where is file:line or a call path"""
        k = "%s|%s" % (rule, key)
        self.obl.append((rule, key, False))
        if k in self._keys:
            return
        self._keys.add(k)
        self.viol.append({"rule": rule, "key": k, "where": where, "text": text})

    def check(self, rule, inst, cond, where="", text=""):
        if cond:
            self.ok(rule, inst)
        else:
            self.bad(rule, inst, where, text or inst)
        return cond

    def floor(self, what, n, minimum):
        """a rule that matches fewer sites than were confirmed by hand decides nothing"""
        self.counts[what] = n
        if n >= minimum:
            self.ok("floor", what)
        else:
            t = "%s: only %d found, at least %d confirmed by hand" % (what, n, minimum)
            self.notes.append(t)
            print("UNDECIDED: property=%s %s" % (self.prop, t))

    def count(self, what, n):
        self.counts[what] = n

    def parts(self, fns, *args):
        """run the parts of a check; a part that does not recognise the code decides nothing"""
        und = 0
        for fn in fns:
            try:
                n = fn(self, *args) or 0
            except Exception as e:
                if os.environ.get("VP_DEBUG"):
                    raise
                self.notes.append("%s: %s: %s" % (fn.__name__, type(e).__name__, e))
                print("UNDECIDED: property=%s %s: %s: %s" % (self.prop, fn.__name__, type(e).__name__, e))
                n = 1
            if n:
                self.count("undecided in %s" % fn.__name__, n)
            und += n
        self.count("undecided", und)
        return und

    def finish(self, tier, level, seed, explanation, checker_cmd, trusted):
        known = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN)).get("known", []):
                if e["property"] == self.prop:
                    known[e["key"]] = e["what"]
        new = [v for v in self.viol if v["key"] not in known]
        seen = [v for v in self.viol if v["key"] in known]
        for v in seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[v["key"]]))
        ev = {
            "property": self.prop, "tier": tier, "seed": seed, "level": level,
            "coverage": {
                "explanation": explanation,
                "obligations": len(self.obl),
                "discharged": sum(1 for o in self.obl if o[2]),
                "checker_cmd": checker_cmd,
                "trusted_base": trusted,
                "analysed": self.counts,
                "rules": self.by_rule(),
                "samples": ["%s: %s" % (r, i) for r, i, _ in self.obl[:: max(1, len(self.obl) // 40)]][:60],
                "violations": self.viol[:50],
                "notes": self.notes[:50],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        d = os.environ.get("VP_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + ".json"), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d known, %d new; %s" % (
            self.prop, len(self.obl), ev["coverage"]["discharged"], len(seen), len(new),
            ", ".join("%s=%s" % kv for kv in sorted(self.counts.items()))))
        if new:
            rp = os.path.join(d, self.prop + ".violation.json")
            json.dump(new, open(rp, "w"), indent=1)
            for v in new[:40]:
                print("  [%s] %s\n      at %s\n      key %s" % (v["rule"], v["text"], v["where"], v["key"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0

    def by_rule(self):
        r = {}
        for rule, _, ok in self.obl:
            a = r.setdefault(rule, [0, 0])
            a[0] += 1
            a[1] += ok
        return {k: {"obligations": v[0], "discharged": v[1]} for k, v in r.items()}
