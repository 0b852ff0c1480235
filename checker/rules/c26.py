"""C26: letter signs and no-contract signs.

Rule `kept`: the opcodes keep what they are given; the indicator is there exactly if its sign is (and, for nocontractsign, a contraction).
Rule `trie`: every contraction, and nothing else, is looked for, between word boundaries (space, punctuation or the ends of the text).
Rule `signs`: the letter sign stands before a letter that no letter follows and neither space nor letter precedes, unless
noletsignafter has what precedes or noletsignbefore what follows, and before each contraction; never before a letter of noletsign.
The no-contract sign stands before each contraction.
"""
import flow, words
from words import Reader, Undecided
from roles import roles
from rules.c12 import where
from rules.c18 import check, seq_, tup, chr_, T
from rules.c20 import inner
from rules.sets import classes, Other
from rules import sets
import seq
from rules.gates import root
from terms import last, short

IND = "crate::translator::indication::"
CHARS = ("chars", ("arg", 2))


def setters(rep, P, m, sign):
    b = IND + m + "::IndicatorBuilder"
    spec = {sign: ("set", T(3))}
    if m == "lettersign":
        spec.update({"noletsign": ("add", CHARS), "noletsignafter": ("add", CHARS), "noletsignbefore": ("add", CHARS)})
    rl, und = roles(rep, P, "kept", b, spec)
    f = P.fns.get(b + "::contraction")
    for p in flow.Flow(P).paths(f) if f is not None else ():
        ins = [e for e in p.events if last(e[0]) in ("insert", "push")]
        if len(ins) == 1 and root(ins[0][1][0])[0] == "fld" and any(x == ("arg", 2) for x in flow.walk(ins[0][1][1])):
            rl[root(ins[0][1][0])[3]] = "contraction"
    return rl, und


def places(P, m, rl):
    """fields of the indicator and what they hold: a role of the builder, or classes of characters"""
    f = P.fns.get(IND + m + "::IndicatorBuilder::build")
    out = {}
    und = 0
    for p in flow.Flow(P, inline_pred=inner(IND + m)).paths(f):
        if p.trunc or p.div or p.ret[0] != "agg":
            und += 1
            continue
        if p.ret[2] != "Some":
            continue
        made = p.ret[4][0]
        if made[0] != "agg":
            und += 1
            continue
        ev = seq.events(p)
        for n, v in zip(made[3], made[4]):
            own = {rl[x[3]] for x in flow.walk(v) if x[0] == "fld" and x[1] == ("arg", 1) and x[3] in rl}
            if any(x[0] == "call" and "Trie" in x[1] for x in flow.walk(v)):
                out.setdefault(n, set()).add("trie")
            elif own:
                out.setdefault(n, set()).update(own)
            else:
                out.setdefault(n, set()).add(charset(P, v, ev))
    return {n: next(iter(v)) if len(v) == 1 else None for n, v in out.items()}, und


def charset(P, v, ev):
    """the classes a set of characters is the union of"""
    t = v
    if t[0] == "mut" and last(t[2]) in ("extend", "insert"):
        a, b = charset(P, t[3], ev), charset(P, ev[t[1]][1][1], ev)
        return None if a is None or b is None else tuple(sorted(set(a) | set(b)))
    while t[0] == "call" and last(t[1]) in ("collect", "flatten", "into_iter", "iter", "cloned", "copied", "clone", "from_iter", "unwrap_or_default") and t[2]:
        t = t[2][0]
    if t[0] in ("ordefault",):
        t = t[1]
    if t[0] == "call" and last(t[1]) in ("filter_map", "flat_map", "map") and len(t[2]) == 2:
        src = t[2][0]
        while src[0] == "call" and last(src[1]) in ("iter", "into_iter", "copied", "cloned") and src[2]:
            src = src[2][0]
        if src[0] != "array":
            return None
        out = set()
        for x in src[1]:
            try:
                rs = seq.apply(P, t[2][1], [x])
            except seq.Unknown:
                return None
            for conds, r, _ in rs:
                c = charset(P, r, ev)
                if c is None:
                    return None
                out |= set(c)
        return tuple(sorted(out))
    if t[0] == "call" and last(t[1]) in ("chain", "union") and len(t[2]) == 2:
        a, b = charset(P, t[2][0], ev), charset(P, t[2][1], ev)
        return None if a is None or b is None else tuple(sorted(set(a) | set(b)))
    if t[0] == "call" and last(t[1]) in ("new", "default", "with_capacity"):
        return ()
    try:
        return tuple(sorted(classes(t, ev, None)))
    except Other:
        return None


def built(rep, P):
    und = 0
    for m, sign in (("lettersign", "letsign"), ("nocontract", "nocontractsign")):
        rl, u = setters(rep, P, m, sign)
        und += u
        inv = {r: n for n, r in rl.items()}
        if sign not in inv or "contraction" not in inv:
            und += 1
            continue
        path = IND + m + "::IndicatorBuilder::build"
        f = P.fns.get(path)
        W = where(f)
        seen = set()
        contraction = ("fld", ("arg", 1), None, inv["contraction"])
        # there or not
        for p in flow.Flow(P, inline_pred=inner(IND + m)).paths(f):
            if p.trunc or p.div or p.ret[0] != "agg":
                und += 1
                continue
            has = {}
            none = False
            for c, v in p.conds.items():
                if v[0] != "=":
                    continue
                if c[0] in ("discr", "isv") and c[1] == ("fld", ("arg", 1), None, inv[sign]):
                    has["sign"] = v[1] in ("+", "Some", 1)
                elif c[0] == "call" and last(c[1]) == "is_empty" and c[2][0] == contraction:
                    has["words"] = v[1] == 0
                elif c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next" and c[1][2][0] == contraction and v[1] in ("+", "Some"):
                    has["words"] = True
                elif c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next" and c[1][2][0] == contraction:
                    none = True
            if none and has.get("words"):
                continue
            if none:
                has["words"] = False
            made = p.ret[2] == "Some"
            for s in (False, True):
                for w in (False, True):
                    if has.get("sign", s) != s or has.get("words", w) != w:
                        continue
                    want = s and (w or m == "lettersign")
                    rep.check("kept", "%s indicator with%s sign, with%s contraction" % (m, "" if s else "out", "" if w else "out"), made == want, W,
                              "the %s indicator is %s with%s its sign and with%s contractions" % (m, "made" if made else "missing", "" if s else "out", "" if w else "out"))
            # what is looked for
            ins = [e for e in p.events if last(e[0]) == "insert" and "Trie" in e[0]]
            if made:
                tries = [x for v in p.ret[4][0][4] for x in flow.walk(v) if x[0] == "call" and last(x[1]) == "with_context"] if p.ret[4][0][0] == "agg" else []
                rep.check("trie", m + " boundaries", bool(tries) and all(any(y[0] == "call" and last(y[1]) == "character_classes" or y[0] == "fld" and y[3] == "character_classes" for y in flow.walk(x[2][1])) for x in tries), W,
                          "the word boundaries of contractions are not those of the table")
            for e in ins:
                a = e[1][1:]
                ok = [any(x[0] == "call" and last(x[1]) == "next" and x[2][0] == contraction for x in flow.walk(a[0])) and a[0][0] == "fld" and a[0][3] == "0",
                      any(x == ("fld", ("arg", 1), None, inv[sign]) for x in flow.walk(a[1])),
                      bounds(a[2]) == ("Start", {"Space", "Punctuation"}), bounds(a[3]) == ("End", {"Space", "Punctuation"}), a[4][0] == "agg" and a[4][2] == "Forward"]
                if bounds(a[2]) is None or bounds(a[3]) is None:
                    und += 1
                    continue
                rep.check("trie", m + " contractions", all(ok), W, "a contraction is looked for %s" % "; ".join(
                    t for t, o in zip(("by other characters than its own", "with another sign", "whatever precedes", "whatever follows", "backwards"), ok) if not o))
            if made and has.get("words") and not ins:
                rep.check("trie", m + " contractions", False, W, "contractions are not looked for")
        # looked up
        path = IND + m + "::Indicator::next"
        pl, u = places(P, m, rl)
        und += u
        if path in P.fns:
            R = Reader(P, calls={"Trie::find_translations": lambda lf, a: seq_([("obj", "found")] if a[1:] == [("obj", "s"), ("obj", "prev")] and a[0][1].startswith("self.") and lf.w.flag("there") else []),
                                 "with_input": lambda lf, a: a[0], "with_weight": lambda lf, a: a[0]})
            und += check(rep, R, "trie", path, {("arg", 1): ("obj", "self"), ("arg", 2): ("obj", "s"), ("arg", 3): ("obj", "prev")}, lambda lf: lf.w.flag("there"), m + " look-up",
                         "a contraction is there exactly if the trie has one here", got=lambda lf: lf.isopt(lf.val(lf.path.ret)))
        else:
            und += 1
    return und


def bounds(t):
    """(kind, classes) of a boundary given to the trie"""
    if t[0] == "agg" and t[2] == "None":
        return (None, set())
    if t[0] != "agg" or t[2] != "Some" or t[4][0][0] != "agg":
        return None
    k = t[4][0]
    v = k[4][0]
    while v[0] == "call" and last(v[1]) in ("clone", "to_vec", "into_vec", "from", "into", "box_assume_init_into_vec_unsafe") and v[2]:
        v = v[2][-1] if last(v[1]) == "into_vec" else v[2][0]
    if v[0] not in ("array", "tuple"):
        return None
    return (k[2], {x[2] for x in v[1] if x[0] == "agg"})


def signs(rep, P):
    und = 0
    for m, sign in (("lettersign", "letsign"), ("nocontract", "nocontractsign")):
        rl, u = setters(Silent(), P, m, sign)
        pl, u = places(P, m, rl)
        names = {}
        for n, v in pl.items():
            if v == ("text Letter", "text Lowercase", "text Uppercase"):
                names["self." + n] = "self.letters"
            elif v == ("text Space",):
                names["self." + n] = "self.spaces"
            elif isinstance(v, str):
                names["self." + n] = "self." + v
            elif v is None:
                und += 1
            else:
                rep.check("kept", m + " sets", False, where(P.fns[IND + m + "::IndicatorBuilder::build"]), "%s is %s instead of letters or spaces" % (n, ", ".join(v)))
        need = {"self." + sign, "self.trie"} | ({"self.letters", "self.spaces", "self.noletsign", "self.noletsignafter", "self.noletsignbefore"} if m == "lettersign" else set())
        if set(names.values()) != need:
            und += 1
            continue
        n = words.MAX

        def found(lf, a):
            """is there a contraction at this position?"""
            s, prev = a[1], a[2]
            if s[0] != "word" and s[0] != "seq":
                raise Undecided("looked up text")
            t = [x for x in lf.seq(s)]
            k = lf.w.length("input", n)
            i = k - len(t)
            if t != [chr_(j) for j in range(i, k)] or not t:
                return ("none",)
            right = ("some", chr_(i - 1)) if i else ("none",)
            # a match depends on what precedes: another character, another answer
            return ("some", ("obj", "f")) if lf.w.ask(("flag", "contraction %d%s" % (i, "" if prev == right else " after something else")), (True, False)) else ("none",)
        R = Reader(P, maxlen=n, bound=n, calls={"::Indicator::next": found, "Trie::find_translations": lambda lf, a: seq_([x[1]] if (x := found(lf, a))[0] == "some" else [])}, opaque=("next",), inline_pred=inner(IND + m), guide=("Indicator::precompute",))
        R.rename = names
        R.jobs = 8

        def want(lf):
            w = lf.w
            k = w.length("input", n)
            out = []
            has = lambda s, i: w.member("self." + s, chr_(i))
            for i in range(k):
                here = w.ask(("flag", "contraction %d" % i), (True, False))
                if m == "lettersign":
                    if has("noletsign", i):
                        continue
                    if not here:
                        here = has("letters", i) and (i + 1 == k or not has("letters", i + 1) and not has("noletsignbefore", i + 1)) and \
                            (i == 0 or not has("spaces", i - 1) and not has("letters", i - 1) and not has("noletsignafter", i - 1))
                if here:
                    out.append(tup(i, ("obj", "self." + sign)))
            return seq_(out)
        und += check(rep, R, "signs", IND + m + "::Indicator::precompute", {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0)}, want, m + " signs",
                     "the letter sign stands before isolated letters and contractions" if m == "lettersign" else "the no-contract sign stands before contractions")
    return und


class Silent:
    def __getattr__(self, n):
        return lambda *a, **k: None


def run(rep, L, B):
    rep.parts([built, signs], L)


LEVEL = "other"
EXPLANATION = ("The setters of the letter-sign and no-contract opcodes, the build and what the table's compiler gives are read as decision trees and compared with the specified effect; "
               "the indicators themselves are read over texts of unnamed characters, each known only by being a letter, a space or a character of noletsign, noletsignafter or noletsignbefore, with the contractions found at each position as unnamed results, "
               "and the positions of the signs are compared with the specified definition.")
ASSUMPTIONS = ["texts of up to three characters (thorough: four)", "the look-up of contractions is C27's affair", "the order in which signs of several indicators are put out is C25's affair"]
