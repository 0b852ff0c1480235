"""C21: computer braille.

Rule `kept`: begcomp and endcomp keep what they are given; without begcomp nothing is indicated.
Rule `signs`: begcomp stands before the first character of each computer braille span of the text, endcomp after its last one,
and at one position what ends comes before what begins.
Rule `marks`: exactly the characters inside such a span are marked.
Rule `words`: to the caller's spans the words are added that contain one of the strings of the compbrl rules, and looking for
them comes to an end.
Rule `gate`: the main loop uses the comp6 rules, and no others, exactly at the marked characters, and everything it precomputes
sees the added words.
"""
import flow, words
from words import Reader, Undecided, Infeasible
from roles import roles
from rules.c12 import where
from rules.c18 import setters, check, tup, seq_, chr_, T
from rules.c20 import whitespace, inner
from rules.c22 import span
from rules.gates import gate, MAIN
from terms import last, short

CB = "crate::translator::indication::computer_braille::"
PC = "crate::translator::position_constraints::"
PT = "crate::translator::table::primary::"


def is_comp(w, s):
    return w.ask(("is", s + ".class", "computer_braille"), (True, False))


def spans_env(R, n, k):
    R.ints = {".start": tuple(range(n + 1)), ".end": tuple(range(n + 2))}
    return seq_(span("s%d" % i, ("obj", "s%d.start" % i), ("obj", "s%d.end" % i)) for i in range(k))


def ranges(w, R, n, k):
    for i in range(k):
        s = "s%d" % i
        if is_comp(w, s):
            a = w.ask(("int", s + ".start"), R.ints[".start"])
            e = min(n, w.ask(("int", s + ".end"), R.ints[".end"]))
            if a < e:
                yield a, e


def signs(rep, P):
    b = CB + "IndicatorBuilder"
    rl, und = roles(rep, P, "kept", b, {"begcomp": ("set", T(3)), "endcomp": ("set", T(3))})
    f = P.fns.get(b + "::build")
    if len(rl) < 2 or f is None:
        return und + 1
    # build: what the table gave goes into an indicator of its own
    places = {}
    for p in flow.Flow(P, inline_pred=inner(CB)).paths(f):
        if p.trunc or p.div or p.ret[0] != "agg":
            und += 1
            continue
        given = {r: p.conds.get(("isv", ("fld", ("arg", 1), None, n), "+")) for n, r in rl.items()}
        if p.ret[2] != "Some":
            continue
        made = p.ret[4][0]
        if made[0] != "agg":
            und += 1
            continue
        for n, v in zip(made[3], made[4]):
            for m, r in rl.items():
                if any(x == ("fld", ("arg", 1), None, m) for x in flow.walk(v)):
                    places.setdefault(n, set()).add(r)
    if any(len(v) != 1 for v in places.values()) or sorted(r for v in places.values() for r in v) != ["begcomp", "endcomp"]:
        und += 1
    names = {"self." + n: "self." + next(iter(v)) for n, v in places.items()}
    B = Reader(P, inline_pred=inner(CB), guide=("IndicatorBuilder::build",))
    B.rename = {"b." + n: "self." + r for n, r in rl.items()}
    und += check(rep, B, "kept", b + "::build", {("arg", 1): ("obj", "b")}, lambda lf: lf.w.has("self.begcomp"), "computer braille indicator",
                 "computer braille is indicated exactly when the table has begcomp", got=lambda lf: lf.path.ret[2] == "Some")
    n = words.MAX
    R = Reader(P, maxlen=n, bound=n, inline_pred=inner(CB), guide=("Indicator::precompute",))
    R.rename = names
    R.jobs = 8
    env = {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0), ("arg", 3): spans_env(R, n, 2)}

    def want(lf):
        w = lf.w
        k = w.length("input", n)
        out = []
        for a, e in ranges(w, R, k, 2):
            out.append((a, 1, "self.begcomp"))
            if w.has("self.endcomp"):
                out.append((e, 0, "self.endcomp"))
        return seq_(tup(a, ("obj", x)) for a, _, x in sorted(out, key=lambda x: x[:2]))
    return und + check(rep, R, "signs", CB + "Indicator::precompute", env, want, "computer braille signs",
                       "begcomp stands before the first, endcomp after the last character of a span that the text has, and ends come before beginnings",
                       got=lambda lf: seq_(tup(lf.num(x[1][0]), x[1][1]) for x in lf.seq(lf.val(lf.path.ret))))


def marks(rep, P):
    n = words.MAX
    R = Reader(P, maxlen=n, bound=n, inline_pred=inner(PC), guide=("ComputerBrailleConstrainer::compute",))
    R.jobs = 8
    env = {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0), ("arg", 3): spans_env(R, n, 2)}

    def want(lf):
        w = lf.w
        k = w.length("input", n)
        on = {i for a, e in ranges(w, R, k, 2) for i in range(a, e)}
        return seq_(("enums", frozenset(["UseComp6"] if i in on else [])) for i in range(k))
    return check(rep, R, "marks", PC + "ComputerBrailleConstrainer::compute", env, want, "characters in computer braille", "exactly the characters inside a computer braille span are marked")


def triggers(rep, P):
    """words that contain a trigger"""
    adt = P.adts.get(PT + "CompbrlScanner")
    path = PT + "CompbrlScanner::enrich"
    if adt is None or path not in P.fns:
        return 1
    f = P.fns[path]
    und = 0
    for inst, n, k, caller, spaces in (("words with a compbrl string", words.MAX, 1, 0, False), ("words and the caller's spans", words.MAX - 1, 1, 1, False),
                                       ("words with one of two compbrl strings", 2, 2, 0, False), ("compbrl strings that start with a space", 2, 1, 0, True)):
        R = Reader(P, maxlen=n, bound=n, calls={"CharacterClasses::is_whitespace": whitespace}, inline_pred=inner(PT + "CompbrlScanner", "crate::emphasis::"), guide=("CompbrlScanner::enrich",))
        R.jobs = 8
        R.ends = True
        env = {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0), ("arg", 3): spans_env(R, n, caller),
               ("fld", ("arg", 1), None, "triggers"): seq_(("obj", "t%d" % i) for i in range(k))}

        def deny(w, key, d, spaces=spaces):
            if spaces:
                return False
            if key[0] == "prefix" and d and key[2]:
                return w.known(("in", "space", key[2])) is True
            return key[0] == "in" and key[1] == "space" and d and any(kk[0] == "prefix" and v and kk[2] == key[2] for kk, v in w.facts.items())
        R.deny = (deny,)

        def found(lf):
            w = lf.w
            m = w.length("input", n)
            on = {i for i in range(m) if any(w.ask(("prefix", "t%d" % j, chr_(i)), (True, False)) for j in range(k))}
            i, out = 0, set()
            while i < m:
                if w.member("space", chr_(i)):
                    i += 1
                    continue
                e = i
                while e < m and not w.member("space", chr_(e)):
                    e += 1
                if on & set(range(i, e)):
                    out.add((i, e))
                i = e
            return out

        def want(lf):
            out = found(lf)
            given = [(("obj", "s%d.class" % i), lf.w.ask(("int", "s%d.start" % i), R.ints[".start"]), lf.w.ask(("int", "s%d.end" % i), R.ints[".end"])) for i in range(caller)]
            for g in given:
                if is_comp(lf.w, g[0][1][:-6]):
                    out.discard(g[1:])
            return (tuple(given), frozenset(out))

        def got(lf):
            s = [dict(x[2]) for x in lf.seq(lf.val(lf.path.ret))]
            s = [(x["class"],) + tuple(lf.num(dict(x["range"][2])[y]) for y in ("start", "end")) for x in s]
            new = [x[1:] for x in s[caller:]]
            if any(x[0][0] == "obj" for x in s[caller:]) or len(set(new)) < len(new):
                return (tuple(s), None)
            if any(x[0][1] != "computer_braille" for x in s[caller:]):
                return (tuple(s), None)
            return (tuple(s[:caller]), frozenset(new))
        if spaces:
            # which words belong to such a string is nobody's promise; that looking for them ends is
            und += check(rep, R, "words", path, env, lambda lf: True, inst, "looking for compbrl strings ends", got=lambda lf: True)
        else:
            und += check(rep, R, "words", path, env, want, inst, "the words that contain a compbrl string, and no others, are added to the caller's spans", got=got)
    return und


def used(rep, P):
    """indicators and constraints are precomputed for the added words as well"""
    und = 0
    f = P.fns.get(MAIN)
    seen = {}
    if f is None:
        return 1
    for p in flow.Flow(P, opaque=("enrich", "precompute"), stop=lambda e, st: len([x for x in st.events if last(x[0]) == "precompute"]) >= 2, loop_bound=1).paths(f):
        ev = [e for e in p.events if last(e[0]) == "precompute"]
        if len(ev) < 2:
            continue
        scanner = [v for c, v in p.conds.items() if c[0] == "isv" and c[1][0] == "fld" and "scanner" in c[1][3] or c[0] == "discr" and c[1][0] == "fld" and "scanner" in c[1][3]]
        rich = any(last(e[0]) == "enrich" for e in p.events)
        for e in ev[:2]:
            if any(x[0] in ("closure", "map", "orelse", "ordefault", "app") for x in flow.walk(e[1][2])):
                und += 1
                continue
            kind = "indicators" if "Indicators" in e[0] else "constraints"
            sees = any(x[0] == "call" and last(x[1]) == "enrich" for x in flow.walk(e[1][2]))
            own = any(x[0] == "call" and last(x[1]) == "emphasis" for x in flow.walk(e[1][2])) or any(x[0] == "fld" and x[3] == "emphasis" for x in flow.walk(e[1][2]))
            seen.setdefault((kind, rich), set()).add((sees, own))
    for kind in ("indicators", "constraints"):
        for rich in (True, False):
            v = seen.get((kind, rich))
            if v is None:
                und += 1
                continue
            rep.check("gate", "%s see %s" % (kind, "the added words" if rich else "the caller's spans"), all(s == rich and (rich or o) for s, o in v), where(f),
                      "%s are not computed from %s" % (kind, "the spans with the words that compbrl adds" if rich else "the caller's spans"))
    return und


def compiled(rep, P):
    """what the table"s classes give to whom"""
    from rules import sets
    return sets.assembled(rep, P, ["ComputerBraille"])


def gates(rep, P):
    return gate(rep, P, ("comp6",))


def run(rep, L, B):
    rep.parts([signs, marks, triggers, used, compiled, gates], L)


LEVEL = "other"
EXPLANATION = ("The setters, indicator, marking function and compbrl search of computer braille are read as decision trees over facts about an unnamed text, its spaces, the caller's spans and the places where a "
               "compbrl string stands; every path is compared with the definition. The use of the marks in the main loop is compared with its specified condition.")
ASSUMPTIONS = ["texts of up to three characters (four in the thorough tier) with two spans of any ends, one or two compbrl strings"]
