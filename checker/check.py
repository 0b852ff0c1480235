#!/usr/bin/env python3
"""Entry point: check.py <property id>.  Analyses /repo's current working tree."""
import importlib, json, os, sys, traceback, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import extract, prog, report  # noqa: E402


def load(features="default"):
    cache = os.environ.get("VP_FACTS_CACHE")      # development aid only, never set by registered commands
    if cache and features == "default":
        import pickle
        if not os.path.exists(cache):
            pickle.dump(extract.facts(features), open(cache, "wb"))
        fx = pickle.load(open(cache, "rb"))
    else:
        fx = extract.facts(features)
    base = json.load(open(os.path.join(HERE, "baseline.json")))
    L, B = prog.Prog(fx[0]), prog.Prog(fx[1])
    L.features = B.features = features
    L.baseline, B.baseline = set(base["lib"]), set(base["bin"])
    B.lib_paths = set(L.fns)
    return L, B


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--rebaseline" in sys.argv:
        fx = extract.facts()
        d = {}
        for n, f in zip(("lib", "bin"), fx):
            P = prog.Prog(f)
            d[n] = sorted(P.fns)
        json.dump(d, open(os.path.join(HERE, "baseline.json"), "w"), indent=0)
        print({k: len(v) for k, v in d.items()})
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    mod = importlib.import_module("rules." + pid.lower())
    rep = report.Report(pid)
    import words
    words.MAX = 4 if tier == "thorough" else 3
    feats = ["default"] + (["none"] if tier == "thorough" else [])
    for ft in feats:
        L, B = load(ft)
        try:
            mod.run(rep, L, B)
        except prog.AnchorError as e:
            # code the rule is anchored in is gone (renamed, inlined): no claim is decided, and none is denied
            print("UNDECIDED: property=%s anchor not found: %s" % (pid, e))
            rep.notes.append("anchor not found: %s" % e)
            rep.count("anchors not found", 1)
        except Exception as e:
            # a shape of code the rule does not recognise: what follows it is undecided, not violated
            if os.environ.get("VP_DEBUG"):
                raise
            print("UNDECIDED: property=%s %s: %s" % (pid, type(e).__name__, e))
            rep.notes.append("not recognised: %s: %s" % (type(e).__name__, e))
            rep.count("not recognised", 1)
    rep.assumptions += getattr(mod, "ASSUMPTIONS", [])
    return rep.finish(tier, getattr(mod, "LEVEL", "other"), seed, mod.EXPLANATION,
                      "python3 checker/check.py %s" % pid,
                      ["rustc nightly MIR construction and name resolution", "checker/driver/driver.rs", "checker/*.py"]
                      + getattr(mod, "TRUSTED", []))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
