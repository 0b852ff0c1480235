"""C18: numbers.

Rule `kept`: every setter of the number indicator and of the number constraints keeps what it is given in a place of its own,
and build() hands that place on; no number indicator without numsign or digits.
Rule `run`: every path of the functions that mark numbers, read as a decision tree over facts about an unnamed text (is the
next character a digit, one of numericmodechars, one of midnum between digits, is the sign defined ...), gives exactly the
marks the definition of a number gives under the same facts.
Rule `gate`: the main loop keeps contractions out exactly at the positions marked, and prefers digits exactly where marked.
"""
import flow, words
from words import Reader, Undecided
from roles import roles, product
from rules.c12 import where
from terms import last, short
from rules.gates import gate

NUM = "crate::translator::indication::numeric::"
PC = "crate::translator::position_constraints::"
T = lambda n: ("translation", ("arg", 2), ("arg", n))


def chr_(i):
    return ("chr", "input", i)


def setters(rep, P, base, spec, build=None):
    rl, und = roles(rep, P, "kept", base, spec)
    m = product(P, (build or base) + "::build", rl) if rl else None
    if m is None:
        return {}, und + 1
    missing = [r for r in rl.values() if r not in {x.split(".")[-1] for x in m.values()}]
    f = P.fns.get(base + "::build")
    for r in rl.values():
        rep.check("kept", r + " is handed on", r not in missing, where(f), "what %s is given is lost when the table is built" % r)
    return m, und


def has_fields(P, adt, names):
    a = P.adts.get(adt)
    return a is not None and set(names) <= {f[0] for v in a["variants"] for f in v["fields"]}


def variants(P, adt):
    return {v["name"] for v in (P.adts.get(adt) or {"variants": ()})["variants"]}


def check(rep, R, rule, path, env, want, inst, what, got=None):
    f = R.P.fns.get(path)
    if f is None:
        return 1
    n, und, bad, why = words.compare(rep, R, inst, path, env, want, got)
    if bad:
        w, g, x = bad
        rep.check(rule, inst, False, where(f), "%s: with %s, it gives %s instead of %s" % (what, words.facts(w), show(g), show(x)))
    elif n:
        rep.check(rule, inst, True, where(f), "")
    rep.count("cases of " + inst, n)
    return und + (0 if n else 1)


def show(v):
    if isinstance(v, tuple) and v:
        if v[0] == "obj":
            return v[1].split(".")[-1]
        if v[0] in ("seq", "tup"):
            return ("[%s]" if v[0] == "seq" else "(%s)") % ", ".join(show(x) for x in v[1])
        if v[0] == "enums":
            return "{%s}" % ",".join(sorted(v[1]))
        if v[0] == "some":
            return "Some(%s)" % show(v[1])
        if v[0] == "chr":
            return "character %s" % v[2]
        if v[0] == "var":
            return "%s{%s}" % (v[1], ",".join("%s:%s" % (n, show(x)) for n, x in v[2]))
        return "(%s)" % ", ".join(show(x) for x in v)
    return str(v)


def tup(*a):
    return ("tup", a)


def seq_(a):
    return ("seq", tuple(a))


def in_number(w, s, n):
    """(positions of starts, ends, all positions inside) of the numbers in a text"""
    on, inside, starts, ends = False, [], [], []
    for i in range(n):
        if w.member(s + "numeric_characters", chr_(i)):
            if not on:
                starts.append(i)
            on = True
            inside.append(i)
        elif on:
            if w.member(s + "numericmodechars", chr_(i)):
                inside.append(i)
            elif w.empty(s + "numericmodechars") and w.member(s + "midnum", chr_(i)) and i + 1 < n and w.member(s + "numeric_characters", chr_(i + 1)):
                inside.append(i)
            else:
                on = False
                ends.append(i)
    return starts, ends, inside


def indicator(rep, P):
    b = NUM + "IndicatorBuilder"
    m, und = setters(rep, P, b, {"numsign": ("set", T(3)), "nonumsign": ("set", T(3)), "midnum": ("add", ("chars", ("arg", 2))),
                                 "numericnocontchars": ("set", ("chars", ("arg", 2))), "numericmodechars": ("set", ("chars", ("arg", 2))),
                                 "numeric_characters": ("set", ("plain", ("arg", 2)))})
    if len(m) < 6:
        return und + 1
    R = Reader(P)
    R.rename = m
    # build: an indicator exactly when there is a numsign and a digit
    B = Reader(P)
    B.rename = {k.replace("self.", "b."): v for k, v in m.items()}
    B.rename.update({k.replace("self.", "b.0."): v for k, v in m.items()})
    und += check(rep, B, "kept", b + "::build", {("arg", 1): ("obj", "b")},
                 lambda lf: lf.w.has("self.numsign") and not lf.w.empty("self.numeric_characters"), "number indicator",
                 "a number indicator is made exactly when the table has a numsign and digits", got=lambda lf: lf.path.ret[2] == "Some")

    def want(lf):
        w = lf.w
        n = w.length("input", R.maxlen)
        if not w.has("self.numsign"):
            raise words.Infeasible()        # never built
        starts, ends, _ = in_number(w, "self.", n)
        out = [(i, "self.numsign") for i in starts]
        out += [(i, "self.nonumsign") for i in ends if w.member("self.numericnocontchars", chr_(i)) and w.has("self.nonumsign")]
        return seq_(tup(i, ("obj", t)) for i, t in sorted(out))
    und += check(rep, R, "run", NUM + "Indicator::precompute", {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0)}, want, "number signs",
                 "numsign stands before the first digit of a number, nonumsign before the numericnocontchars character that ends it")
    return und


def constrainer(rep, P):
    b = PC + "NumericConstrainerBuilder"
    m, und = setters(rep, P, b, {"numeric_characters": ("set", ("plain", ("arg", 2))), "numericmodechars": ("set", ("chars", ("arg", 2))),
                                 "midnum": ("add", ("chars", ("arg", 2)))})
    if len(m) < 3 or "DontContract" not in variants(P, PC + "Constraint"):
        return und + 1
    R = Reader(P)
    R.rename = m

    def want(lf):
        n = lf.w.length("input", R.maxlen)
        _, _, inside = in_number(lf.w, "self.", n)
        return seq_(("enums", frozenset(["DontContract"] if i in inside else [])) for i in range(n))
    und += check(rep, R, "run", PC + "NumericConstrainer::compute", {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0)}, want, "contractions in numbers",
                 "contractions are kept out of exactly the characters of a number")
    return und


def matches_at(lf, a):
    """specified: the dots stand at this position"""
    s, pos, o = lf.seq(a[0]), lf.num(a[1]), a[2]
    if o[0] != "obj":
        raise Undecided("pattern")
    k = lf.num(("obj", o[1] + ".chars()"))
    if pos + k > len(s):
        return False
    return lf.w.ask(("at", o[1], pos), (True, False))


def back_reader(P, m):
    R = Reader(P, calls={"position_constraints::matches_at": matches_at})
    R.rename = m
    R.ints = {".chars()": (1, 2)}
    return R


def at(w, o, pos, n):
    k = w.ask(("int", o + ".chars()"), (1, 2))
    return pos + k <= n and w.ask(("at", o, pos), (True, False)), k


def backward(rep, P):
    b = PC + "BackwardNumericConstrainerBuilder"
    m, und = setters(rep, P, b, {"numsign": ("set", ("some", ("arg", 2))), "nonumsign": ("set", ("some", ("arg", 2))),
                                 "digit_cells": ("set", ("plain", ("arg", 2))), "letter_cells": ("set", ("plain", ("arg", 2)))})
    if len(m) < 4 or "PreferDigit" not in variants(P, PC + "Constraint"):
        return und + 1
    R = back_reader(P, m)

    def want(lf):
        w = lf.w
        n = w.length("input", R.maxlen)
        out = [()] * n
        pos, on = 0, False
        while pos < n:
            if w.has("self.numsign"):
                yes, k = at(w, "self.numsign", pos, n)
                if yes and (pos == 0 or not w.member("self.letter_cells", chr_(pos - 1))):
                    pos, on = pos + k, True
                    continue
            if on:
                if w.has("self.nonumsign"):
                    yes, k = at(w, "self.nonumsign", pos, n)
                    if yes:
                        pos, on = pos + k, False
                        continue
                if w.member("self.digit_cells", chr_(pos)):
                    out[pos] = ("PreferDigit",)
                    pos += 1
                    continue
                on = False
            pos += 1
        return seq_(("enums", frozenset(x)) for x in out)
    und += check(rep, R, "run", PC + "BackwardNumericConstrainer::compute", {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0)}, want, "digits read backward",
                 "digits are preferred exactly for the digit cells that follow a numsign not preceded by a letter")
    B = Reader(P)
    B.rename = {k.replace("self.", "b."): v for k, v in m.items()}
    und += check(rep, B, "kept", b + "::build", {("arg", 1): ("obj", "b")}, lambda lf: lf.w.has("self.numsign"), "backward numbers",
                 "digits are looked for backward exactly when the table has a numsign", got=lambda lf: lf.path.ret[2] == "Some")
    return und


def pattern(rep, P):
    """matches_at: the text from this position on starts with the pattern"""
    f = P.fns.get(PC + "matches_at")
    if f is None:
        return 1
    R = Reader(P)

    def want(lf):
        n = lf.w.length("input", 3)
        k = lf.w.length("pattern", 3)
        if k > n - 1:
            return False
        return all(lf.w.ask(("eqc", i, i + 1), (True, False)) for i in range(k))

    class Eq(words.Leaf):
        pass
    und = 0
    for p in flow.Flow(P).paths(f):
        t = p.ret
        if not (t[0] == "call" and last(t[1]) == "starts_with"):
            return und + 1
        s, q = t[2]
        okp = words_of(q, ("arg", 3))
        oks = s[0] == "call" and last(s[1]) == "index" and s[2][0] == ("arg", 1) and s[2][1][0] == "agg" and "RangeFrom" in s[2][1][1] and s[2][1][4] == (("arg", 2),)
        if okp is None:
            return und + 1
        rep.check("run", "dots found at a position", oks and okp, where(f), "looks for the dots at %s" % short(s)[:80])
    return und


def words_of(t, arg):
    from seq import stages
    b, ops = stages(t)
    if [o for o, _ in ops] not in (["chars"], []):
        return None
    return b == arg


def compiled(rep, P):
    """what the table"s classes give to whom"""
    from rules import sets
    return sets.given(rep, P, [k for k in sets.WANT if k[0] in ("numeric_indicator", "numeric_constrainer", "backward_numeric_constrainer")]) + sets.assembled(rep, P, ["Numeric", "BackwardNumeric"])


def gates(rep, P):
    return gate(rep, P, ("contract", "digit"))


def run(rep, L, B):
    rep.parts([indicator, constrainer, backward, pattern, compiled, gates], L)


LEVEL = "other"
EXPLANATION = ("The setters, build functions and marking functions of the number indicator and of the number constraints are read as decision trees over facts about an unnamed text; "
               "every path is compared with the definition of a number under the same facts, for texts of up to three characters. "
               "The uses of the marks in the main loop are compared with their specified condition.")
ASSUMPTIONS = ["the marking functions are followed for texts of up to three characters (four in the thorough tier); they look at one character and its neighbours at a time"]
