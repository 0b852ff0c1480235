"""C20: capitals.

Rule `kept`: every setter of the capital indicator and of the backward constraint keeps what it is given in a place of its own,
and build() hands that place on; the phrase length is two words unless the table says otherwise.
Rule `signs`: the capital signs put into a text are, under all facts about its characters (letter, capital, capsmodechars,
space) and about the opcodes the table defines, those of the tier the definition of capitals names.
Rule `back`: backwards the cells after the capital signs are marked as the definition says.
Rule `gate`: the main loop puts capitals on exactly what a marked position puts out.
"""
import flow, words
from words import Reader, Undecided, Infeasible
from roles import setter, fields_of
from rules.c12 import where
from rules.c18 import setters, check, tup, seq_, chr_, variants, at, back_reader
from rules.gates import gate
from terms import last, short

UP = "crate::translator::indication::uppercase::"
PC = "crate::translator::position_constraints::"
T = lambda n: ("translation", ("arg", 2), ("arg", n))
SIGNS = ("capsletter", "begcapsword", "endcapsword", "begcaps", "endcaps", "begcapsphrase")


def whitespace(lf, a):
    return lf.w.member("space", a[1])


def inner(*modules):
    return lambda f: not f.derived and any(f.path.startswith(m) for m in modules)


def switch(rep, P, rule, f, arg, on, off, field=None):
    """the field a setter sets to 1 for one variant of an argument and to 0 for the other"""
    st = setter(P, f)
    if st is None:
        return None
    got = {}
    for conds, place, how, k in st:
        v = conds.get(("discr", arg))
        fs = fields_of(place, ("arg", 1))
        if fs and how == "set" and k and k[0] == "const" and v and v[0] == "=":
            got.setdefault(fs[-1], {})[v[1]] = k[1]
    for name, d in got.items():
        if set(d) == {on, off}:
            rep.check(rule, "%s of %s" % (on.lower(), last(f.path)), d == {on: 1, off: 0}, where(f), "%s takes %s for %s" % (last(f.path), on.lower(), off.lower()))
            return name
    return None


def default(P, new, name):
    """the value a field has in new()"""
    f = P.fns.get(new)
    if f is None:
        return None
    out = set()
    for p in flow.Flow(P).paths(f):
        for x in flow.walk(p.ret):
            if x[0] == "agg" and name in x[3]:
                out.add(x[4][x[3].index(name)])
    return out.pop() if len(out) == 1 else None


def subset(small, big):
    """what is in the one set is in the other"""
    def deny(w, key, d):
        if key[0] != "in":
            return False
        if key[1] == small and d:
            return w.known(("in", big, key[2])) is False
        if key[1] == big and not d:
            return w.known(("in", small, key[2])) is True
        return False
    return deny


def apart(a, b):
    def deny(w, key, d):
        if key[0] != "in" or not d:
            return False
        return key[1] == a and w.known(("in", b, key[2])) is True or key[1] == b and w.known(("in", a, key[2])) is True
    return deny


def indicator(rep, P):
    b = UP + "IndicatorBuilder"
    spec = {n: ("set", T(3)) for n in SIGNS}
    spec["endcapsphrase"] = ("set", T(4))
    spec["lencapsphrase"] = ("set", ("plain", ("arg", 2)))
    spec["capsmodechars"] = ("set", ("chars", ("arg", 2)))
    spec["uppercase_characters"] = spec["letter_characters"] = ("set", ("plain", ("arg", 2)))
    m, und = setters(rep, P, b, spec)
    if len(m) < len(spec):
        return und + 1
    field = {v.split(".")[-1]: k.split(".")[-1] for k, v in m.items()}
    before = switch(rep, P, "kept", P.fns[b + "::endcapsphrase"], ("arg", 3), "Before", "After")
    if before is None:
        return und + 1
    m["self." + before] = "self.before"
    W = where(P.fns.get(b + "::new"))
    d = default(P, b + "::new", field["lencapsphrase"])
    if d is None or d[0] != "const":
        und += 1
    else:
        rep.check("kept", "default of lencapsphrase", d == ("const", 2), W, "without lencapsphrase a phrase starts at %s words" % short(d))
    for n in SIGNS + ("endcapsphrase",):
        d = default(P, b + "::new", field[n])
        if d is None:
            und += 1
        else:
            rep.check("kept", "no %s by default" % n, d[0] == "agg" and d[2] == "None", W, "a table without %s indicates with it" % n)
    S = lambda n: "self." + n
    indicating = lambda w, p="self.": any(w.has(p + n) for n in ("capsletter", "begcapsword", "begcaps", "begcapsphrase"))

    B = Reader(P, calls={"TableContext::character_classes": lambda lf, a: ("obj", "classes")}, inline_pred=inner(UP), guide=("IndicatorBuilder::build",))
    B.rename = {k.replace("self.", "b."): v for k, v in m.items()}
    B.rename.update({k.replace("self.", "b.0."): v for k, v in m.items()})
    und += check(rep, B, "kept", b + "::build", {("arg", 1): ("obj", "b"), ("arg", 2): ("obj", "ctx")}, lambda lf: indicating(lf.w), "capital indicator",
                 "a capital indicator is made exactly when the table has one of capsletter, begcapsword, begcaps, begcapsphrase", got=lambda lf: lf.path.ret[2] == "Some")

    R = Reader(P, maxlen=words.MAX + 2, bound=words.MAX + 2, calls={"CharacterClasses::is_whitespace": whitespace},
               inline_pred=inner(UP, "crate::translator::indication::find_spans"), guide=("Indicator::precompute",))
    R.rename = m
    R.jobs = 8
    R.ints = {"self.lencapsphrase": (1, 2, 3)}
    L_, U_, M_ = S("letter_characters"), S("uppercase_characters"), S("capsmodechars")
    R.deny = (subset(U_, L_), apart("space", L_), apart("space", M_))

    def want(lf):
        w = lf.w
        n = w.length("input", R.maxlen)
        if not indicating(w):
            raise Infeasible()
        letter = lambda i: w.member(L_, chr_(i))
        upper = lambda i: w.member(U_, chr_(i))
        inside = lambda i: letter(i) or w.member(M_, chr_(i))
        has = lambda x: w.has(S(x))
        out = []
        put = lambda i, x: out.append((i, ("obj", S(x))))

        def mode(a, e):
            put(a, "begcaps")
            if has("endcaps"):
                put(e, "endcaps")

        def each(a, e):
            if has("capsletter"):
                for i in range(a, e):
                    if letter(i) and upper(i):
                        put(i, "capsletter")

        def whole(a, e, k):
            if k == 1 and has("capsletter"):
                put(a, "capsletter")
            elif has("begcapsword"):
                put(a, "begcapsword")
            elif has("begcaps"):
                mode(a, e)
            else:
                each(a, e)

        def part(a, e, k, more):
            if k == 1 and has("capsletter"):
                put(a, "capsletter")
            elif has("begcapsword") and more is None:
                put(a, "begcapsword")
            elif has("begcapsword") and has("endcapsword"):
                put(a, "begcapsword")
                put(more, "endcapsword")
            elif has("begcaps"):
                mode(a, e)
            else:
                each(a, e)

        def flush():
            if not group:
                return
            limit = w.ask(("int", S("lencapsphrase")), (1, 2, 3))
            a, e = group[0][0], group[-1][1]
            if count >= limit and has("begcapsphrase"):
                put(a, "begcapsphrase")
                if has("endcapsphrase"):
                    if w.flag(S("before")):
                        whole(*group[-1])
                    else:
                        put(e, "endcapsphrase")
                elif has("endcaps"):
                    put(e, "endcaps")
            elif count >= limit and has("begcaps"):
                mode(a, e)
            else:
                for g in group:
                    whole(*g)
        i, group, count = 0, [], 0
        while i < n:
            if not inside(i):
                i += 1
                continue
            j = i
            while j < n and inside(j):
                j += 1
            ls = [k for k in range(i, j) if letter(k)]
            us = [upper(k) for k in ls]
            if ls and all(us):
                if not group or any(w.member("space", chr_(k)) for k in range(group[-1][1], ls[0])):
                    count += 1
                group.append((ls[0], ls[-1] + 1, len(ls)))
            else:
                flush()
                group, count = [], 0
                k = 0
                while k < len(ls):
                    if not us[k]:
                        k += 1
                        continue
                    e = k
                    while e < len(ls) and us[e]:
                        e += 1
                    part(ls[k], ls[e - 1] + 1, e - k, ls[e] if e < len(ls) else None)
                    k = e
            i = j
        flush()
        return seq_(tup(i, t) for i, t in sorted(out, key=lambda x: x[0]))
    und += check(rep, R, "signs", UP + "Indicator::precompute", {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0)}, want, "capital signs",
                 "each capital, word, run and phrase of capitals has the signs of the first tier the table defines for it")
    return und


def backward(rep, P):
    b = PC + "BackwardCapsConstrainerBuilder"
    m, und = setters(rep, P, b, {"capsletter": ("set", ("some", ("arg", 2))), "begcapsword": ("set", ("some", ("arg", 2))),
                                 "endcapsword": ("set", ("some", ("arg", 2))), "letter_cells": ("set", ("plain", ("arg", 2)))})
    if len(m) < 4 or not {"Uppercase", "TitleCase"} <= variants(P, PC + "Constraint"):
        return und + 1
    B = Reader(P)
    B.rename = {k.replace("self.", "b."): v for k, v in m.items()}
    und += check(rep, B, "kept", b + "::build", {("arg", 1): ("obj", "b")}, lambda lf: lf.w.has("self.capsletter") or lf.w.has("self.begcapsword"), "backward capitals",
                 "capital signs are looked for backward exactly when the table has capsletter or begcapsword", got=lambda lf: lf.path.ret[2] == "Some")
    R = back_reader(P, m)

    def want(lf):
        w = lf.w
        n = w.length("input", R.maxlen)
        out = [()] * n
        pos = 0

        def sign(x):
            return at(w, "self." + x, pos, n) if w.has("self." + x) else (False, 0)
        while pos < n:
            yes, k = sign("begcapsword")
            if yes:
                pos += k
                while True:
                    yes, k = sign("endcapsword")
                    if yes:
                        pos += k
                        break
                    if pos < n and w.member("self.letter_cells", chr_(pos)):
                        out[pos] = ("Uppercase",)
                        pos += 1
                    else:
                        break
                continue
            yes, k = sign("capsletter")
            if yes:
                pos += k
                if pos < n:
                    out[pos] = ("TitleCase",)
                continue
            pos += 1
        return seq_(("enums", frozenset(x)) for x in out)
    und += check(rep, R, "back", PC + "BackwardCapsConstrainer::compute", {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0)}, want, "capitals read backward",
                 "the cell after capsletter, and the letter cells from begcapsword to endcapsword or the first other cell, are marked")
    return und


def compiled(rep, P):
    """what the table"s classes give to whom"""
    from rules import sets
    return sets.given(rep, P, [k for k in sets.WANT if k[0] in ("uppercase_indicator", "backward_caps_constrainer")]) + sets.assembled(rep, P, ["BackwardCaps"])


def gates(rep, P):
    return gate(rep, P, ("case",))


def run(rep, L, B):
    rep.parts([indicator, backward, compiled, gates], L)


LEVEL = "other"
EXPLANATION = ("The setters, build functions and marking functions of the capital indicator and of the backward capital constraint are read as decision trees over facts about an unnamed text and table; "
               "every path is compared with the definition of capitals under the same facts. The use of the marks in the main loop is compared with its specified condition.")
ASSUMPTIONS = ["the forward indicator is followed for texts of up to five characters (six in the thorough tier), the backward one for up to three (four)",
               "uppercase letters are letters, and neither letters nor capsmodechars are spaces",
               "phrase lengths of one to three words"]
