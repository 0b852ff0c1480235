"""Where the constraints computed for a position take effect.

Every path through one step of the main loop is followed up to the piece it puts out.  The rules the step chooses among are
read off the path as sources (the trie, match and context rules, nocross rules, comp6 rules, the digit that replaces a
letter) with the filters they go through; an abstract rule of length 0 to 3 and of the opcodes that matter is sent through
those filters for every combination of the constraints at the position, and whether it gets through is compared with the
constraint's meaning.
"""
import itertools
import flow, seq
from terms import last, short, calls_in
from rules.c12 import where

MAIN = "crate::translator::table::primary::PrimaryTable::trace"
FLAGS = ("dont_contract_at", "use_comp6_at", "prefer_digit_at", "prepunc_ok_at", "postpunc_ok_at", "uppercase_at", "titlecase_at")

INSIDE = ("boundary_inside", "comp6_changes_inside")        # about the characters of a match

KINDS = {"call", "fld", "bin", "un", "discr", "closure", "mut", "upd", "app", "map", "tuple", "array", "agg", "isv", "index", "orelse", "okor", "const", "arg", "ok"}


class Und(Exception):
    pass


def root(t):
    while t[0] in ("mut", "upd"):
        t = t[3] if t[0] == "mut" else t[1]
    return t


class Cand:
    def __init__(self, length, rule, more=0):
        self.length, self.rule, self.weight = length, rule, length + more

    def __repr__(self):
        return "a rule for %d characters%s" % (self.length, "" if self.rule in (None, "*") else " (%s)" % self.rule.lower())


def consistent(p):
    """the same question has the same answer each time it is put"""
    seen = {}
    for c, v in p.conds.items():
        if c[0] == "call" and last(c[1]) in FLAGS and seen.setdefault((c[1], c[2]), v) != v:
            return False
    return True


class Main:
    """the step of the main loop, followed once per check"""

    def __init__(self, P):
        self.P = P
        self.f = P.fns.get(MAIN)
        if self.f is None:
            raise Und("main loop")
        self.sink = None
        self.cache = {}

        def result(st):
            for x in st.events:
                if last(x[0]) == "extend" and len(x[1]) == 2 and any(y[0] == "call" and last(y[1]) == "translations_at" for y in flow.walk(x[1][1])):
                    return root(x[1][0])

        def stop(e, st):
            return last(e[0]) == "push" and e[1] and root(e[1][0]) == result(st)
        self.result = result
        self.paths = [p for p in flow.Flow(P, max_paths=60000, stop=stop).paths(self.f) if p.stop and consistent(p)]
        if not self.paths:
            raise Und("main loop not followed")

    def constraints(self):
        """every question about a constraint: (name, object, position)"""
        out = set()
        for p in self.paths:
            for e in p.events:
                for a in (("call", e[0], e[1], 0),) + tuple(e[1]):
                    out |= self.asked(a)
        return out

    def asked(self, t, depth=0):
        """questions in a term, those of earlier steps it was computed from left out"""
        out = set()
        if depth > 4:
            return out
        if t[0] == "call" and last(t[1]) in FLAGS and len(t[2]) == 2:
            return {(last(t[1]), t[2][0], t[2][1])}
        if t[0] == "call" and last(t[1]) in INSIDE and len(t[2]) == 3:
            return {(last(t[1]), t[2][0], t[2][1])}
        if t[0] == "call" and last(t[1]) in ("max_by_key", "max_by"):
            return out
        if t[0] == "closure":
            if t not in self.cache and t[1] in self.P.fns:
                self.cache[t] = set()
                try:
                    for c, r, ev in seq.apply(self.P, t, [("arg", 2)]):
                        for k in list(c) + [r]:
                            self.cache[t] |= self.asked(k, depth + 1)
                except seq.Unknown:
                    raise Und("closure")
            return self.cache.get(t, out)
        for x in t[1:]:
            if isinstance(x, tuple):
                for y in (x,) if x and isinstance(x[0], str) and x[0] in KINDS else x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        out |= self.asked(y, depth)
        return out

    # ---- the rules a step chooses among

    def entries(self, t, ev, depth=0):
        """[(source term, filters)]"""
        if depth > 40:
            raise Und("deep collection")
        go = lambda x: self.entries(x, ev, depth + 1)
        if t[0] == "mut":
            e = ev.get(t[1])
            n = last(t[2])
            if e is None:
                raise Und("change not recorded")
            old, args = go(t[3]), e[1][1:]
            if n == "extend" or n == "append":
                return old + go(args[0])
            if n == "push":
                return old + [(("one", args[0]), ())]
            if n == "retain":
                return [(s, f + (args[0],)) for s, f in old]
            if n == "clear":
                return []
            if n in ("reserve", "shrink_to_fit") or n.startswith("sort"):
                return old
            raise Und("change " + n)
        if t[0] == "call":
            n = last(t[1])
            if n in ("new", "with_capacity", "default", "empty") and t[1].startswith(("std", "alloc", "core")):
                return []
            if n in ("iter", "into_iter", "collect", "cloned", "copied", "to_vec", "clone", "from_iter", "drain", "iter_mut", "peekable", "as_slice") and t[2]:
                return go(t[2][0])
            if n == "filter":
                return [(s, f + (t[2][1],)) for s, f in go(t[2][0])]
            if n == "chain":
                return go(t[2][0]) + go(t[2][1])
            if n in ("some", "once"):
                return [(("one", t[2][0]), ())]
            return [(t, ())]
        if t[0] == "fld":
            return [(t, ())]
        if t[0] in ("tuple", "array"):
            return [(("one", x), ()) for x in t[1]]
        raise Und("collection " + t[0])

    # ---- what a filter says about an abstract rule

    def value(self, t, cand, w, depth=0):
        if depth > 30:
            raise Und("deep")
        go = lambda x: self.value(x, cand, w, depth + 1)
        k = t[0]
        if k == "const":
            return t[1]
        if k == "cand":
            return cand
        if k == "call":
            n = last(t[1])
            if n in FLAGS:
                w["asked"].add(n)
                return w[n]
            if n in INSIDE and len(t[2]) == 3:
                k = go(t[2][2])
                if isinstance(k, bool) or not isinstance(k, int):
                    raise Und("length")
                return int(0 < w[n] < k)
            if n in ("as_ref", "clone", "deref", "borrow", "as_deref", "cloned") and len(t[2]) == 1:
                return go(t[2][0])
            if n == "length" and isinstance(go(t[2][0]), Cand):
                return cand.length
            if n == "weight" and isinstance(go(t[2][0]), Cand):
                w["weighed"] = True
                return cand.weight
            if n in ("saturating_sub", "min", "max") and len(t[2]) == 2:
                a, b = go(t[2][0]), go(t[2][1])
                if isinstance(a, int) and isinstance(b, int):
                    return max(a - b, 0) if n == "saturating_sub" else min(a, b) if n == "min" else max(a, b)
            if n == "origin" and isinstance(go(t[2][0]), Cand):
                return ("none",) if cand.rule is None else ("some", ("origin",))
            if n in ("is_some", "is_none") and len(t[2]) == 1:
                v = go(t[2][0])
                if isinstance(v, tuple) and v and v[0] in ("none", "some"):
                    return int((v[0] == "some") == (n == "is_some"))
            if n in ("eq", "ne") and len(t[2]) == 2:
                a, b = go(t[2][0]), go(t[2][1])
                if isinstance(a, int) and isinstance(b, int):
                    return int((a == b) == (n == "eq"))
            if n == "contains" and len(t[2]) == 2:
                # the rules already applied here: C15's affair
                return w["seen"]
            raise Und("value of " + n)
        if k == "bin":
            a, b = go(t[2]), go(t[3])
            if not (isinstance(a, int) and isinstance(b, int)):
                raise Und("operands")
            ops = {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "BitAnd": a & b, "BitOr": a | b, "Add": a + b, "Sub": a - b,
                   "BitXor": a ^ b}
            if t[1] in ops:
                return int(ops[t[1]])
            raise Und("operation")
        if k == "un" and t[1] == "Not":
            return 1 - go(t[2])
        if k == "fld":
            b = go(t[1])
            if isinstance(b, tuple) and b and b[0] == "some" and t[2] in ("+", "Some"):
                return b[1]
            if b == ("origin",) and t[3] == "rule":
                return ("rule", cand.rule)
            raise Und("part")
        if k == "discr":
            b = go(t[1])
            if isinstance(b, tuple) and b and b[0] in ("none", "some"):
                return "+" if b[0] == "some" else "-"
            if isinstance(b, tuple) and b and b[0] == "rule":
                return b[1]
            raise Und("discriminant")
        if k == "isv":
            raise Und("isv")
        if k == "app":
            return self.call(t[1], list(t[2:]) if t[2][0] != "tuple" else [t[2]], cand, w)
        if k == "map":
            b = go(t[1])
            if isinstance(b, tuple) and b and b[0] == "none":
                return b
            raise Und("map")
        raise Und("value " + k)

    def call(self, fn, args, cand, w):
        key = (fn, tuple(args))
        if key not in self.cache:
            try:
                self.cache[key] = seq.apply(self.P, fn, args)
            except (seq.Unknown, KeyError):
                raise Und("function value")
        for conds, ret, ev in self.cache[key]:
            ok = True
            for c, v in conds.items():
                x = self.value(c, cand, w)
                if (v[0] == "=" and x != v[1]) or (v[0] == "!=" and x in v[1]):
                    ok = False
                    break
            if ok:
                return self.value(ret, cand, w)
        raise Und("no path")

    def passes(self, filters, cand, w):
        for f in filters:
            if not self.call(f, [("cand",)], cand, w):
                return False
        return True


def kind(s):
    """which rules a source stands for"""
    if s[0] == "one":
        t = s[1]
        while t[0] == "call" and last(t[1]) in ("clone", "to_owned") and len(t[2]) == 1:
            t = t[2][0]
        if t[0] == "fld" and t[1][0] == "call" and last(t[1][1]) == "get" and "backward_digit_overrides" in short(t[1][2][0]):
            return "digit"
        raise Und("a single rule of unknown origin")
    b = s
    while b[0] == "fld" and b[1][0] in ("call", "fld"):
        b = b[1]
    if b[0] == "call":
        n = last(b[1])
        if n == "nocross_candidates":
            return "nocross"
        if n == "find_translations" and b[2] and b[2][0][0] == "fld":
            return "comp6" if b[2][0][3] == "comp6_trie" else "plain" if b[2][0][3] == "trie" else "other"
        if n in ("translation_candidates", "match_candidates", "context_candidates", "partition_delayed_translations"):
            return "plain"
    raise Und("rules from " + (last(b[1]) if b[0] == "call" else b[0]))


def path_world(m, p):
    """what the path has settled: {flag: 0/1, 'dir': .., 'next': .., 'over': ..}"""
    out = {}
    for c, v in p.conds.items():
        if c[0] == "call" and last(c[1]) in FLAGS:
            if v[0] == "=":
                out[last(c[1])] = v[1]
        elif c[0] == "discr":
            x = c[1]
            if x[0] == "fld" and x[3] == "direction" and x[1] == ("arg", 1) and v[0] == "=":
                out["dir"] = v[1]
            elif x[0] == "call" and last(x[1]) == "get" and "backward_digit_overrides" in short(x[2][0]) and v[0] == "=":
                out["over"] = v[1]
        elif c[0] == "call" and last(c[1]) in ("eq", "ne") and len(c[2]) == 2 and v[0] == "=" and any(a == ("fld", ("arg", 1), "", "direction") or a[0] == "fld" and a[3] == "direction" for a in c[2]):
            o = [a for a in c[2] if a[0] == "agg"]
            if o:
                same = (v[1] == 1) == (last(c[1]) == "eq")
                out["dir"] = o[0][2] if same else {"Forward": "Backward", "Backward": "Forward"}.get(o[0][2])
    # the first character looked at, if any, tells whether there is one
    for c, v in p.conds.items():
        if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) in ("next", "peek") and v[0] == "=" and any(last(x[1]) == "chars" for x in flow.walk(c[1]) if x[0] == "call"):
            out.setdefault("next", v[1])
            break
    return out


def allowed(kind_, cand, w):
    if kind_ != "digit" and any(0 < w[k] < cand.length for k in INSIDE):
        return False
    if kind_ == "comp6":
        return bool(w["use_comp6_at"])
    digit = w["dir"] == "Backward" and w["prefer_digit_at"] and w["next"] == "+" and w["over"] == "+"
    if w["use_comp6_at"]:
        return False
    if kind_ == "digit":
        return bool(digit)
    if w["dont_contract_at"] and cand.length > 1:
        return False
    if kind_ == "plain":
        if digit and cand.length == 1:
            return False
        if cand.rule == "Prepunc" and not w["prepunc_ok_at"] or cand.rule == "Postpunc" and not w["postpunc_ok_at"]:
            return False
    return True


NEUTRAL = {"dont_contract_at": 0, "use_comp6_at": 0, "prefer_digit_at": 0, "prepunc_ok_at": 1, "postpunc_ok_at": 1, "uppercase_at": 0, "titlecase_at": 0, "boundary_inside": 0, "comp6_changes_inside": 0,
           "dir": "Forward", "next": "+", "over": "+", "seen": 0}
VARY = {
    "contract": {"dont_contract_at": (0, 1), "dir": ("Forward", "Backward")},
    "digit": {"prefer_digit_at": (0, 1), "dir": ("Forward", "Backward"), "over": ("+", "-"), "next": ("+", "-"), "dont_contract_at": (0, 1)},
    "comp6": {"use_comp6_at": (0, 1), "comp6_changes_inside": (0, 1, 2), "dir": ("Forward", "Backward"), "dont_contract_at": (0, 1), "prefer_digit_at": (0, 1)},
    "inside": {"boundary_inside": (0, 1, 2), "use_comp6_at": (0, 1), "dir": ("Forward", "Backward")},
    "punct": {"prepunc_ok_at": (0, 1), "postpunc_ok_at": (0, 1), "dir": ("Forward", "Backward")},
}
FLAG = {"contract": ("dont_contract_at",), "digit": ("prefer_digit_at",), "comp6": ("use_comp6_at", "comp6_changes_inside"), "inside": ("boundary_inside",), "punct": ("prepunc_ok_at", "postpunc_ok_at"),
        "case": ("uppercase_at", "titlecase_at")}
SAY = {
    "contract": "no contraction where the constraints forbid one",
    "digit": "the digit replaces the letter read from one cell, where digits are preferred",
    "comp6": "inside computer braille the comp6 rules and no others",
    "inside": "no match across the begin or the end of capitals, emphasis or computer braille",
    "punct": "prepunc and postpunc rules only where the scan found them in place",
}
_main = {}


def main(P):
    if id(P) not in _main:
        try:
            _main[id(P)] = (P, Main(P))
        except Und as x:
            _main[id(P)] = (P, x)
    m = _main[id(P)][1]
    if isinstance(m, Und):
        raise m
    return m


def gate(rep, P, aspects):
    try:
        m = main(P)
        W = where(m.f)
        und = asked(rep, P, m, aspects)
    except Und:
        return 1
    for a in aspects:
        if a == "case":
            und += case(rep, P, m)
            continue
        und += survive(rep, P, m, a, W)
    return und


def groups(m):
    """paths with the same questions answered and the same rules to choose among"""
    out = {}
    for p in m.paths:
        ev = seq.events(p)
        bases = tuple((e[1][0]) for e in p.events if last(e[0]) in ("max_by_key", "max_by"))
        k = (frozenset(path_world(m, p).items()), bases)
        out.setdefault(k, (p, ev))
    return out


def survive(rep, P, m, aspect, W):
    und = 0
    vary = VARY[aspect]
    names = sorted(vary)
    n = 0
    bad = None
    for (pw, bases), (p, ev) in groups(m).items():
        pw = dict(pw)
        try:
            es = [(kind(s), f) for b in bases for s, f in m.entries(b, ev)]
        except Und:
            und += 1
            continue
        if not es:
            und += 1
            continue
        for combo in itertools.product(*(vary[k] for k in names)):
            w = dict(NEUTRAL)
            w.update(zip(names, combo))
            if any(k in w and w[k] != v for k, v in pw.items()):
                continue
            w["asked"] = set()
            kinds = {k for k, _ in es}
            for want in ("plain", "nocross", "digit", "comp6"):
                cands = [Cand(1, "*")] if want == "digit" else [Cand(l, r) for l in (0, 1, 2, 3) for r in ("*", "Prepunc", "Postpunc", None)]
                if want == "nocross":
                    cands = [Cand(l, r) for l in (1, 2, 3) for r in ("*", None)]
                mine = [f for k, f in es if k == want]
                for c in heavier(cands, w):
                    try:
                        got = [m.passes(f, c, w) for f in mine]
                    except Und:
                        und += 1
                        continue
                    ok = allowed(want, c, w)
                    n += 1
                    if ok and not (got and all(got)) or not ok and any(got):
                        bad = bad or (want, c, w, ok)
    what = SAY[aspect]
    if bad:
        want, c, w, ok = bad
        flags = ", ".join("%s=%s" % (k, w[k]) for k in names)
        rep.check("gate", what, False, W, "with %s, %s%s is %s" % (flags, c, {"plain": "", "nocross": " (nocross)", "digit": " (the digit)", "comp6": " (comp6)"}[want],
                                                                   "left out" if ok else "still chosen from"))
    elif n:
        rep.check("gate", what, True, W, "")
    rep.count("rules sent through the filters (%s)" % aspect, n)
    return und + (0 if n else 1)


def heavier(cands, w):
    """the rules, and, where their weight is looked at, those with conditions as well"""
    for c in cands:
        w["weighed"] = False
        yield c
        if w["weighed"]:
            for more in (1, 3):
                yield Cand(c.length, c.rule, more)


def asked(rep, P, m, aspects):
    """every question is put to the constraints of this text, at the position of the step"""
    W = where(m.f)
    und = 0
    want = {x for a in aspects for x in FLAG[a]}
    for name, obj, pos in sorted(m.constraints(), key=str):
        if name not in want:
            continue
        o = obj
        if not (o[0] == "call" and last(o[1]) == "precompute" and len(o[2]) == 3):
            und += 1
            continue
        text = o[2][1]
        if text[0] in ("arg", "fld", "const", "str"):
            rep.check("gate", name + " of this text", text == ("arg", 2), W, "the constraints are computed for %s, not for the text to be translated" % short(text)[:80])
        else:
            und += 1
        spans = o[2][2]
        if any(x[0] == "call" and last(x[1]) == "emphasis" for x in flow.walk(spans)):
            rep.check("gate", name + " with the spans of the text", True, W, "")
        elif spans[0] in ("array", "tuple", "const"):
            rep.check("gate", name + " with the spans of the text", False, W, "the constraints are computed without the caller's spans")
        else:
            und += 1
        rep.check("gate", name + " at the first position", pos == ("const", 0), W, "at the start of the text %s is asked for position %s" % (name, short(pos)[:60]))
    und += second(rep, P, m, want)
    return und


def second(rep, P, m, want):
    """in the next step the same position is used for everything"""
    W = where(m.f)

    def stop(e, st):
        at = next((i for i, x in enumerate(st.events) if last(x[0]) == "push" and x[1] and root(x[1][0]) == m.result(st)), None)
        on = sum(c[0] == "call" and last(c[1]) in FLAGS and v == ("=", 1) for c, v in st.conds.items())
        if at is None:
            return on > 0
        later = st.events[at + 1:]
        return on > 1 or sum(last(x[0]) in ("max_by_key", "max_by") for x in later) >= 2 or any(last(x[0]) == "push" and x[1] and root(x[1][0]) == m.result(st) for x in later)
    key = "second"
    if key not in m.cache:
        m.cache[key] = flow.Flow(P, max_paths=60000, stop=stop).paths(m.f)
    und = 0
    seen = set()
    for p in m.cache[key]:
        edge = [i for i, e in enumerate(p.events) if last(e[0]) == "push" and e[1] and root(e[1][0]) == m.result(p)]
        if not edge:
            continue
        later = p.events[edge[0] + 1:]
        ref = [e[1][i] for e in later if last(e[0]) == "nocross_candidates" for i in (3,) if len(e[1]) > 3]
        if not ref:
            continue
        for e in later:
            qs = set()
            for a in (("call", e[0], e[1], 0),) if last(e[0]) in FLAGS else tuple(x for x in e[1] if x[0] == "closure"):
                qs |= m.asked(a)
            for name, obj, pos in qs:
                if name in want:
                    seen.add((name, pos, ref[0]))
    for name, pos, at in sorted(seen, key=str):
        rep.check("gate", name + " at the position of the step", pos == at, W, "%s is asked for position %s in a step at position %s" % (name, short(pos)[:80], short(at)[:80]))
    return und + (0 if seen else 1)


CASED = {"to_uppercase": 1, "to_lowercase": 2, "to_ascii_uppercase": 4, "to_ascii_lowercase": 5}


def letters(t, x, ev):
    """a text made from the output of rule x: parts of it, each in capitals or as it is"""
    go = lambda y: letters(y, x, ev)
    k = t[0]
    if k == "call":
        n = last(t[1])
        if n == "output" and t[2] == (x,):
            return ((0, "first"), (0, "rest"))
        if n in CASED and len(t[2]) == 1:
            return tuple((CASED[n], b) for a, b in go(t[2][0]))
        if n in ("to_string", "to_owned", "clone", "collect", "into_iter", "chars", "as_str", "from", "into", "once", "from_iter", "deref", "as_ref", "iter", "cloned", "copied", "by_ref") and len(t[2]) == 1:
            return go(t[2][0])
        if n == "chain" or n == "add" or n == "concat" and len(t[2]) == 2:
            return go(t[2][0]) + go(t[2][1])
        if n in ("new", "default", "with_capacity"):
            return ()
        if n in ("flat_map", "map") and t[2][1][0] == "fn" and last(t[2][1][1]) in CASED:
            return tuple((CASED[last(t[2][1][1])], b) for a, b in go(t[2][0]))
        if n == "next" and len(t[2]) == 1:
            return go(("fld", t, "Some", "0"))
        if n == "take" and t[2][1][0] == "const":
            # a letter has up to three capitals
            w = go(t[2][0])
            if len(w) == 1 and w[0][1] == "first" and w[0][0] in (1, 2):
                return w if t[2][1][1] >= 3 else ((3, "first"),)
        if n == "skip" and t[2][1] == ("const", 1):
            w = go(t[2][0])
            if len(w) == 2 and w[0][1] == "first":
                return w[1:]
    if k == "str" and t[1] == "":
        return ()
    if k == "fmt":
        out = ()
        for y in t[1:]:
            for z in y if isinstance(y, tuple) and y and not isinstance(y[0], str) else (y,):
                if isinstance(z, tuple) and z and z[0] != "str":
                    out += go(z)
                elif isinstance(z, tuple) and z and z[1]:
                    raise Und("text")
        return out
    if k == "fld" and t[2] in ("+", "Some") and t[1][0] == "call" and last(t[1][1]) == "next":
        w = go(t[1][2][0])
        if len(w) == 2 and w[0][1] == "first":
            return w[:1]
        if len(w) == 1 and w[0][1] == "first" and w[0][0] in (1, 2):
            return ((3, "first"),)
    if k == "mut":
        n = last(t[2])
        if n == "next":
            w = go(t[3])
            if len(w) == 2 and w[0][1] == "first":
                return w[1:]
        if n in ("push", "push_str", "extend"):
            return go(t[3]) + go(ev[t[1]][1][1])
    raise Und("text")


def case(rep, P, m):
    """capitals read backward are put on what the rule for the position puts out"""
    from rules.c15 import strip_piece, payload_of, PROG
    PROG[0] = P
    W = where(m.f)
    und = n = 0
    bad = None
    done = set()
    for p in m.paths:
        t = p.events[-1][1][1]
        x = t if payload_of(t) else strip_piece(t)
        c = payload_of(x)
        if c is None or c[0] != "call" or last(c[1]) not in ("max_by_key", "max_by"):
            continue
        pw = path_world(m, p)
        key = (t, tuple(sorted((k, str(v)) for k, v in pw.items() if k in ("dir",) + FLAGS)))
        if key in done:
            continue
        done.add(key)
        outs = [({}, t, p.events)]
        try:
            if t[0] == "call" and t[1] in P.fns and "closure" in t[1]:
                outs = seq.apply(P, t[2][0], list(t[2][1:]))
            elif t[0] == "call" and t[1] in P.fns and last(t[1]) not in ("with_output", "clone"):
                outs = seq.apply(P, ("fn", t[1]), list(t[2]))
            elif t[0] == "app":
                outs = seq.apply(P, t[1], list(t[2:]))
        except (seq.Unknown, KeyError):
            und += 1
            continue
        for d in ("Forward", "Backward"):
            for up, ti in ((0, 0), (0, 1), (1, 0), (1, 1)):
                w = dict(NEUTRAL)
                w.update(dir=d, uppercase_at=up, titlecase_at=ti, asked=set())
                if any(k in w and w[k] != v for k, v in pw.items() if k in ("dir", "uppercase_at", "titlecase_at")):
                    continue
                # what else the path has settled by other combinations of the questions
                try:
                    if any(kk[0] in ("bin", "un") and any(q[0] == "call" and last(q[1]) in ("uppercase_at", "titlecase_at") for q in flow.walk(kk)) and
                           (m.value(kk, Cand(1, "*"), w) == v[1]) != (v[0] == "=") for kk, v in p.conds.items()):
                        continue
                except Und:
                    und += 1
                    continue
                for conds, r, ev0 in outs:
                    ev = {e[2]: e for e in ev0}
                    try:
                        live = True
                        empty = any(k[0] == "discr" and v[1] == "-" and k[1][0] == "call" and last(k[1][1]) == "next" and any(last(c[1]) == "output" for c in calls_in(k[1]))
                                    for k, v in p.conds.items())
                        for k, v in conds.items():
                            if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) == "next" or k[0] == "call" and last(k[1]) == "is_empty":
                                empty = empty or v[1] in ("-", 1)
                                continue
                            if (m.value(k, Cand(1, "*"), w) == v[1]) != (v[0] == "="):
                                live = False
                                break
                        if not live:
                            continue
                        while r[0] == "call" and last(r[1]) == "clone":
                            r = r[2][0]
                        if r == x:
                            got = ((0, "first"), (0, "rest"))
                        elif r[0] == "call" and last(r[1]) == "with_output" and strip_piece(r) == x:
                            y = r[2][0]
                            while y[0] == "call" and last(y[1]) == "clone":
                                y = y[2][0]
                            got = letters(r[2][1], y, ev)
                        else:
                            raise Und("piece")
                    except Und:
                        und += 1
                        continue
                    b = d == "Backward"
                    want = ((1, "first"), (1, "rest")) if b and up else ((1, "first"), (0, "rest")) if b and ti else ((0, "first"), (0, "rest"))
                    n += 1
                    if not empty and got != want:
                        bad = bad or (d, up, ti, got, want)
    what = "capitals read backward are put on what the position puts out"
    say = lambda g: "nothing" if not g else " and ".join("%s%s" % ({"first": "the first letter", "rest": "the rest"}[b], ("", " in capitals", " in small letters", " in the first of its capitals only", " in capitals if it is ASCII", " in small letters if it is ASCII")[a] or " as it is") for a, b in g)
    if bad:
        d, up, ti, got, want = bad
        rep.check("gate", what, False, W, "with the %s direction, uppercase=%d, titlecase=%d, the output is %s, instead of %s" % (d.lower(), up, ti, say(got), say(want)))
    elif n:
        rep.check("gate", what, True, W, "")
    rep.count("cases of capitals put on", n)
    return und + (0 if n else 1)
