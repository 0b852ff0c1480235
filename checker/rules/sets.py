"""Which characters and cells of the table the indicators and constrainers are given, and which of them a table has."""
import flow, seq
from terms import last, short
from rules.c12 import where
from rules.gates import root
from words import Reader, Undecided
from rules.c18 import check

PT = "crate::translator::table::primary::"
WANT = {
    ("numeric_indicator", "numeric_characters"): {"text Litdigit"},
    ("numeric_constrainer", "numeric_characters"): {"text Litdigit"},
    ("uppercase_indicator", "uppercase_characters"): {"text Uppercase"},
    ("uppercase_indicator", "letter_characters"): {"text Letter"},
    ("hyphenation_constrainer", "letter_characters"): {"text Letter"},
    ("punctuation_constrainer", "letter_characters"): {"text Letter"},
    ("punctuation_constrainer", "letter_or_digit_characters"): {"text Letter", "text Digit"},
    ("punctuation_constrainer", "space_characters"): {"text Space"},
    ("backward_numeric_constrainer", "letter_cells"): {"cells Letter"},
    ("backward_numeric_constrainer", "digit_cells"): {"cells Digit", "cells Litdigit"},
    ("backward_caps_constrainer", "letter_cells"): {"cells Letter"},
}
BACKWARD = ("backward_numeric_constrainer", "backward_caps_constrainer")
PASS = {"clone", "into_iter", "iter", "copied", "cloned", "collect", "to_owned", "from_iter", "drain", "into", "from", "unwrap", "as_ref", "borrow", "deref", "unwrap_or"}


class Other(Exception):
    pass


def classes(t, ev, extra):
    """the classes of characters a set is made of"""
    go = lambda x: classes(x, ev, extra)
    if t[0] == "ordefault" or t[0] == "orelse":
        return go(t[1])
    if t[0] == "fld" and t[2] in ("+", "Some") and t[3] == "0":
        return go(t[1])
    if t[0] == "default" or t[0] == "agg" and t[2] == "None":
        return frozenset()
    if t[0] == "mut":
        e = ev.get(t[1])
        if e is None:
            raise Other()
        if last(t[2]) in ("extend", "insert"):
            return go(t[3]) | go(e[1][1])
        if last(t[2]) in ("reserve", "shrink_to_fit"):
            return go(t[3])
        raise Other()
    if t[0] == "call":
        n = last(t[1])
        if n == "get" and len(t[2]) == 2 and t[2][1][0] == "agg" and not t[2][1][4]:
            r = t[2][0]
            while r[0] == "call" and last(r[1]) in ("clone", "borrow", "as_ref") and len(r[2]) == 1:
                r = r[2][0]
            src = last(r[1]) if r[0] == "call" else r[3] if r[0] == "fld" else ""
            if src in ("character_classes", "dots_classes"):
                return frozenset([{"character_classes": "text ", "dots_classes": "cells "}[src] + t[2][1][2]])
            raise Other()
        if n in ("union", "chain", "bitor") and len(t[2]) == 2:
            return go(t[2][0]) | go(t[2][1])
        if n in PASS and t[2]:
            return go(t[2][0])
        if n in ("new", "default", "with_capacity") and ("HashSet" in t[1] or "Vec" in t[1]):
            return frozenset()
        if n == "chars" and extra is not None and extra(t):
            return frozenset(["always"])
    raise Other()


def given(rep, P, wanted):
    """the sets handed to the builders of `wanted` when a table is compiled"""
    f = P.fns.get(PT + "PrimaryTable::compile")
    if f is None:
        return 1
    und = 0
    W = where(f)
    depth = lambda t: sum(1 for x in flow.walk(t) if x[0] == "call" and last(x[1]) == "next")
    nexts = lambda st: sum(1 for e in st.events if last(e[0]) == "next")
    results = {}
    complete = set()
    for extra in (False, True):
        def prune(key, bn, st, extra=extra):
            if not (key[0] == "discr" and key[1][0] == "call" and last(key[1][1]) == "next"):
                return False
            if bn != "+":
                return False
            # of the rules, only one, and only in the last pass over them: an `always` rule
            return not extra or nexts(st) < 2

        def prune2(key, bn, st):
            if prune(key, bn, st):
                return True
            return key[0] == "discr" and key[1][0] == "fld" and key[1][3] == "rule" and bn != "Always"
        try:
            paths = flow.Flow(P, prune=prune2).paths(f)
        except Exception:
            return und + 1
        for p in paths:
            if p.trunc or p.div:
                continue
            complete |= {e[0] for e in p.events}
            d = [v[1] for k, v in p.conds.items() if k == ("discr", ("arg", 2)) and v[0] == "="]
            if not d:
                d = [{1: o[0][2], 0: {"Forward": "Backward", "Backward": "Forward"}.get(o[0][2])}.get(v[1]) for k, v in p.conds.items()
                     if k[0] == "call" and last(k[1]) == "eq" and ("arg", 2) in k[2] and v[0] == "=" for o in [[a for a in k[2] if a[0] == "agg"]] if o]
            if len(d) != 1:
                # a path that does not ask for the direction does the same in both
                d = ["Forward", "Backward"] if not d else []
            ev = seq.events(p)
            always = any(k[0] == "discr" and k[1][0] == "fld" and k[1][3] == "rule" and v == ("=", "Always") for k, v in p.conds.items())
            for e in p.events:
                r = root(e[1][0]) if e[1] else ("none",)
                if r[0] != "fld" or (r[3], last(e[0])) not in WANT or len(e[1]) != 2:
                    continue
                k = (r[3], last(e[0]))
                try:
                    c = classes(e[1][1], ev, lambda t: any(x[0] == "fld" and x[3] == "dots" for x in flow.walk(t)))
                except Other:
                    c = None
                for x in d:
                    results.setdefault((k, x), set()).add((extra and always, c))
    for k in wanted:
        for d in ("Backward",) if k[0] in BACKWARD else ("Forward",):
            got = results.get((k, d))
            if not got and complete and not any(last(n) == k[1] for n in complete):
                rep.check("sets", "%s of %s (%s)" % (k[1], k[0], d.lower()), False, W, "nobody gives %s its %s" % k)
                continue
            if not got or any(c is None for _, c in got):
                und += 1
                continue
            want = WANT[k]
            ok = all(c - {"always"} == want and ("always" not in c or always and k[1] == "letter_cells") for always, c in got)
            wrong = [c for a, c in got if c - {"always"} != want or "always" in c]
            rep.check("sets", "%s of %s (%s)" % (k[1], k[0], d.lower()), ok, W,
                      "%s of %s are %s instead of %s" % (k[1], k[0], " and ".join(sorted(wrong[0])) if wrong else "", " and ".join(sorted(want))))
            if k[1] == "letter_cells" and d == "Backward":
                if any(a for a, _ in got):
                    rep.check("sets", "%s of %s include contractions" % k, any("always" in c for _, c in got), W, "the cells of `always` rules for letters are no letters to %s" % k[0])
                else:
                    und += 1
    return und


ORDER = ("computer_braille", "emphasis", "numeric", "lettersign", "uppercase", "nocontract")
KIND = {"computer_braille": "ComputerBraille", "emphasis": "Emphasis", "numeric": "Numeric", "lettersign": "LetterSign", "uppercase": "Uppercase", "nocontract": "NoContract"}
CONSTRAINTS = {"Numeric": "Numeric", "BackwardCaps": "BackwardCaps", "BackwardNumeric": "BackwardNumeric", "Hyphenation": "Hyphenation", "Punctuation": "Punctuation"}
FORWARD = ("Hyphenation", "Punctuation")


def assembled(rep, P, which):
    """the indicators and constrainers a table has"""
    path = PT + "PrimaryTableBuilder::build"
    und = 0
    calls = {}
    for m in ORDER:
        calls["indication::%s::IndicatorBuilder::build" % m] = lambda lf, a, m=m: ("obj", "indicator." + m)
    for c in CONSTRAINTS:
        calls["position_constraints::%sConstrainerBuilder::build" % c] = lambda lf, a, c=c: ("obj", "constrainer." + c)
    calls["PatternsBuilder::build"] = lambda lf, a: ("obj", "patterns")
    calls["MatchPatternsBuilder::build"] = lambda lf, a: ("obj", "patterns")
    for d in ("Forward", "Backward"):
        R = Reader(P, calls=calls)
        env = {("arg", 1): ("obj", "b"), ("arg", 2): ("var", d, ()), ("arg", 3): ("obj", "ctx")}

        def part(lf, name):
            r = lf.path.ret
            if r[0] != "agg" or name not in r[3]:
                raise Undecided("table")
            v = lf.val(r[4][r[3].index(name)])
            if v[0] == "var" and len(v[2]) == 1:
                v = v[2][0][1]
            return [(x[1], x[2][0][1]) for x in lf.seq(v)]
        if "indicators" in which:
            def want(lf):
                return tuple((KIND[m], ("obj", "indicator." + m)) for m in ORDER if lf.w.has("indicator." + m))
            und += check(rep, R, "sets", path, env, want, "indicators of a table (%s)" % d.lower(), "a table has the indicators its opcodes define, in this order", got=lambda lf: tuple(part(lf, "indicators")))
        for c in which:
            if c not in CONSTRAINTS:
                continue

            def want(lf, c=c):
                return [("obj", "constrainer." + c)] if lf.w.has("constrainer." + c) and (d == "Forward" or c not in FORWARD) else []
            und += check(rep, R, "sets", path, env, want, "%s constrainer of a table (%s)" % (c.lower(), d.lower()), "a table has the constrainers its opcodes define%s" % (", forward only" if c in FORWARD else ""),
                         got=lambda lf, c=c: [o for v, o in part(lf, "constrainers") if v == c])
        if "ComputerBraille" in which:
            und += check(rep, R, "sets", path, env, lambda lf: 1, "computer braille constrainer of a table (%s)" % d.lower(), "every table has it",
                         got=lambda lf: sum(1 for v, o in part(lf, "constrainers") if v == "ComputerBraille"))
    return und
