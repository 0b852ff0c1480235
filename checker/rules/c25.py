"""C25: what the indicators and constrainers compute reaches the main loop, each at its own position.

Rule `union`: the constraints at a position are those any constrainer sets there; there is one set for each character.
Rule `asked`: each question about a constraint looks at its own constraint at that position, and is denied outside the text.
Rule `dispatch`: every constrainer computes its own constraints from the text and spans it is given.
Rule `collected`: every sign an indicator gives for a position, the end of the text included, is among those for that position,
in the order of the indicators, then in the order the indicator gives them; the boundaries are where capitals, emphasis and
computer braille have signs.
Rule `sets`: a table has the indicators and constrainers of its opcodes, in the specified order.
Rule `gate`: the main loop takes no match across a boundary.
"""
import flow, words, seq
from words import Reader, Undecided
from rules.c12 import where
from rules.c18 import check, seq_, tup, chr_
from rules.c20 import inner
from rules.gates import gate, root, MAIN
from rules import sets
from terms import last, short

PC = "crate::translator::position_constraints::"
IND = "crate::translator::indication::"
ASKED = {"dont_contract_at": "DontContract", "use_comp6_at": "UseComp6", "uppercase_at": "Uppercase", "titlecase_at": "TitleCase", "prefer_digit_at": "PreferDigit",
         "hyphenation_break_at": "HyphenationBreak", "prepunc_ok_at": "PrepuncOk", "postpunc_ok_at": "PostpuncOk"}
PARTS = {"Numeric": "NumericConstrainer", "ComputerBraille": "ComputerBrailleConstrainer", "BackwardCaps": "BackwardCapsConstrainer", "BackwardNumeric": "BackwardNumericConstrainer",
         "Hyphenation": "HyphenationConstrainer", "Punctuation": "PunctuationConstrainer"}
OWN = {"Numeric": "DontContract", "ComputerBraille": "UseComp6", "BackwardCaps": "Uppercase", "BackwardNumeric": "PreferDigit", "Hyphenation": "HyphenationBreak", "Punctuation": "PrepuncOk"}
SPANS = {"computer_braille", "emphasis"}
BOUNDARY = {"ComputerBraille", "Emphasis", "Uppercase"}


def union(rep, P):
    path = PC + "Constrainers::precompute"
    und = 0
    n = words.MAX
    for k in (1, 2):
        def computed(lf, a):
            if a[1] != ("word", "input", 0) or a[2] != ("obj", "spans"):
                return seq_(())
            m = lf.w.length("input", n)
            return seq_(("enums", frozenset(["K" + a[0][1]] if lf.w.ask(("flag", "%s.%d" % (a[0][1], i)), (True, False)) else [])) for i in range(m))
        R = Reader(P, maxlen=n, bound=n + 1, calls={"Constrainer::compute": computed}, guide=("Constrainers::precompute",), inline_pred=inner(PC + "Constrainers"), opaque=("compute",))
        R.jobs = 8
        env = {("arg", 1): ("var", "Constrainers", (("0", seq_(("obj", "c%d" % i) for i in range(k))),)), ("arg", 2): ("word", "input", 0), ("arg", 3): ("obj", "spans")}

        def want(lf, k=k):
            m = lf.w.length("input", n)
            return seq_(("enums", frozenset("Kc%d" % j for j in range(k) if lf.w.ask(("flag", "c%d.%d" % (j, i)), (True, False)))) for i in range(m))

        def got(lf):
            v = lf.val(lf.path.ret)
            return v[2][0][1] if v[0] == "var" and len(v[2]) == 1 else v
        und += check(rep, R, "union", path, env, want, "constraints of %d constrainer%s" % (k, "s" * (k > 1)), "the constraints at a position are those any constrainer sets there", got=got)
    return und


def asked(rep, P):
    und = 0
    names = sorted(ASKED.values())
    if {v["name"] for v in (P.adts.get(PC + "Constraint") or {"variants": ()})["variants"]} != set(names):
        und += 1
    n = 2
    for fn, own in sorted(ASKED.items()):
        path = PC + "PositionConstraints::" + fn
        for here in names:
            # one character has exactly this constraint, the other one has all the others
            rest = frozenset(x for x in names if x != here)
            for place in (0, 1):
                cells = [("enums", rest)] * n
                cells[place] = ("enums", frozenset([here]))
                for pos in range(n + 2):
                    R = Reader(P, inline_pred=inner(PC), guide=("PositionConstraints::" + fn,))
                    env = {("arg", 1): ("var", "PositionConstraints", (("0", seq_(cells)),)), ("arg", 2): pos}
                    w = pos < n and (own == here) == (pos == place)
                    inst = "%s with %s%s" % (fn, here, " of another" if place != pos else "")
                    if pos >= n and here != own:
                        continue
                    und += check(Quiet(rep, inst if pos < n else fn + " outside the text"), R, "asked", path, env, lambda lf, w=w: w, inst if pos < n else fn + " outside the text",
                                 "%s asks for %s at this position" % (fn, own), got=lambda lf: lf.truth(lf.val(lf.path.ret)))
    return und


class Quiet:
    """the evidence lists an obligation once"""

    def __init__(self, rep, inst):
        self.rep = rep

    def __getattr__(self, n):
        return getattr(self.rep, n)


def dispatch(rep, P):
    und = 0
    adt = P.adts.get(PC + "Constrainer")
    if adt is None:
        return 1
    for v in adt["variants"]:
        name = v["name"]
        if name not in PARTS:
            und += 1
            continue
        calls = {"::%s::compute" % c: (lambda lf, a, c=c: ("tup", (("obj", c),) + tuple(a))) for c in PARTS.values()}
        R = Reader(P, calls=calls, inline_pred=lambda f: False, opaque=("compute",))
        env = {("arg", 1): ("var", name, (("0", ("obj", "payload")),)), ("arg", 2): ("obj", "input"), ("arg", 3): ("obj", "spans")}
        und += check(rep, R, "dispatch", PC + "Constrainer::compute", env, lambda lf, name=name: (PARTS[name], "payload", "input"), "constrainer " + name, "a constrainer computes its own constraints",
                     got=lambda lf: (lambda x: (x[1][0][1], x[1][1][1], x[1][2][1]) if x[0] == "tup" else x)(lf.val(lf.path.ret)))
    return und


def collected(rep, P):
    path = IND + "Indicators::precompute"
    und = 0
    n = 2
    for a, b in [(x, None) for x in sets.ORDER] + [("numeric", "uppercase"), ("uppercase", "numeric"), ("computer_braille", "emphasis"), ("emphasis", "lettersign"), ("nocontract", "computer_braille")]:
        have = [x for x in (a, b) if x]
        calls = {"no::such": None}
        R = Reader(P, maxlen=n, bound=n + 1, calls=calls, guide=("Indicators::precompute",), inline_pred=inner(IND + "Indicators"), opaque=("precompute",))
        R.ints = {".at": tuple(range(n + 1))}
        count = 2 if b is None else 1

        def signs(w, m):
            k = w.length("input", n)
            out = []
            for i in range(count):
                pos = w.ask(("int", "%s%d.at" % (m, i)), R.ints[".at"])
                if pos > k:
                    raise words.Infeasible()
                out.append((pos, ("obj", "%s%d" % (m, i))))
            return out
        for m in sets.ORDER:
            def pre(lf, args, m=m):
                if args[0] != ("obj", m + "!") or args[1] != ("word", "input", 0) or (m in SPANS and args[2] != ("obj", "spans")):
                    return seq_(())
                return seq_(tup(p, o) for p, o in signs(lf.w, m))
            calls["%s::Indicator::precompute" % m] = pre
        env = {("arg", 1): ("var", "Indicators", (("0", seq_(("var", sets.KIND[m], (("0", ("obj", m + "!")),)) for m in have)),)), ("arg", 2): ("word", "input", 0), ("arg", 3): ("obj", "spans")}

        def want(lf):
            k = lf.w.length("input", n)
            at = [[] for _ in range(k + 1)]
            edge = [False] * (k + 1)
            for m in have:
                for p, o in signs(lf.w, m):
                    at[p].append(o)
                    edge[p] |= sets.KIND[m] in BOUNDARY
            return (seq_(seq_(x) for x in at), tuple(edge[1:k]))

        def got(lf):
            k = lf.w.length("input", n)
            v = dict(lf.val(lf.path.ret)[2])
            tr, bo = v.get("translations"), v.get("boundaries")
            if tr is None or bo is None:
                raise Undecided("indications")
            return (tr, tuple(lf.truth(x) for x in lf.seq(bo))[1:k])
        und += check(rep, R, "collected", path, env, want, "signs of " + " and ".join(have), "every sign is kept for its position, in the order of the indicators, and boundaries are where text changes its kind", got=got)
    return und


def looked_up(rep, P):
    und = 0
    n = 3
    R = Reader(P, inline_pred=inner(IND + "PrecomputedIndications"))
    adt = P.adts.get(IND + "PrecomputedIndications")
    if adt is None:
        return 1
    tr = seq_(seq_(("obj", "t%d%d" % (i, j)) for j in range(i)) for i in range(n))
    for pos in range(n + 1):
        env = {("arg", 1): ("var", "PrecomputedIndications", (("translations", tr), ("boundaries", seq_((False,) * n)))), ("arg", 2): pos}
        und += check(rep, R, "asked", IND + "PrecomputedIndications::translations_at", env, lambda lf: tr[1][pos] if pos < n else seq_(()), "signs at position %d of 3" % pos, "the signs kept for a position are given for it",
                     got=lambda lf: (lambda v: seq_(()) if v == ("default",) else v)(lf.val(lf.path.ret)))
    for what, path, make in (("boundary", IND + "PrecomputedIndications::boundary_inside", lambda b: ("var", "PrecomputedIndications", (("translations", tr), ("boundaries", seq_(b))))),
                             ("change of computer braille", PC + "PositionConstraints::comp6_changes_inside", lambda b: ("var", "PositionConstraints", (("0", seq_(("enums", frozenset(["UseComp6"] if x else [])) for x in b)),)))):
        if path not in P.fns:
            und += 1
            continue
        m = 4
        for mask in range(1 << m):
            b = tuple(bool(mask >> i & 1) for i in range(m))
            for pos in range(2):
                for length in range(4):
                    ins = range(pos + 1, pos + length)
                    w = any(b[i] for i in ins) if what == "boundary" else any(b[i] != b[pos] for i in ins)
                    R = Reader(P, inline_pred=inner(IND + "PrecomputedIndications", PC + "PositionConstraints"), bound=5)
                    und += check(rep, R, "asked", path, {("arg", 1): make(b), ("arg", 2): pos, ("arg", 3): length}, lambda lf: w, "%s inside a match of %d characters" % (what, length),
                                 "what lies between the characters of a match, and no more, counts", got=lambda lf: lf.truth(lf.val(lf.path.ret)))
    return und


def number(t, lengths):
    """a position or length, the lengths of matches given"""
    if t[0] == "const" and isinstance(t[1], int):
        return t[1]
    if t in lengths:
        return lengths[t]
    if t[0] == "bin":
        a, b = number(t[2], lengths), number(t[3], lengths)
        if a is None or b is None:
            return None
        o = {"Add": a + b, "Sub": a - b, "Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}
        return int(o[t[1]]) if t[1] in o else None
    if t[0] == "call" and last(t[1]) in ("eq", "ne") and len(t[2]) == 2:
        x = [y[4][0] if y[0] == "agg" and y[2] == "Some" else y for y in t[2]]
        if any(y[0] == "agg" and y[2] == "None" for y in x):
            return int((x[0][:3] == x[1][:3]) == (last(t[1]) == "eq"))
        a, b = number(x[0], lengths), number(x[1], lengths)
        return None if a is None or b is None else int((a == b) == (last(t[1]) == "eq"))
    return None


def emitted(rep, P):
    """the first two steps of the main loop: the signs of a position are put out when it is first reached, and only then"""
    f = P.fns.get(MAIN)
    if f is None:
        return 1
    W = where(f)
    steps = lambda ev: [e for e in ev if last(e[0]) == "translation_candidates"]
    stop = lambda e, st: last(e[0]) == "translation_candidates" and len(steps(st.events)) >= 2
    und = n = 0
    bad = None
    done = set()
    late = False
    for p in flow.Flow(P, stop=stop, loop_bound=2, max_paths=60000).paths(f):
        if p.trunc or p.div:
            continue
        signs = [e for e in p.events if last(e[0]) == "translations_at"]
        if not p.stop and len(steps(p.events)) != 1:
            continue
        for i, e in enumerate(p.events):
            if last(e[0]) == "translations_at":
                t = ("call", e[0], e[1], e[2])
                put = [(j, x) for j, x in enumerate(p.events) if j > i and last(x[0]) in ("extend", "append", "push") and len(x[1]) == 2 and any(y == t for y in flow.walk(x[1][1]))]
                if not put:
                    lost = not any(y == t for x in p.events[i + 1:] for a in x[1] for y in flow.walk(a))
                    if lost:
                        bad = bad or ("(lost)", "")
                    else:
                        und += 1
                    continue
                j, x = put[0]
                r = root(x[1][0])
                if any(last(y[0]) in ("push", "extend", "insert") and y[1] and root(y[1][0]) == r for y in p.events[i:j]):
                    late = True
        lengths = sorted({x for c in list(p.conds) + [e[1][1] for e in signs] for x in flow.walk(c) if x[0] == "call" and last(x[1]) == "length" and len(x[2]) == 1}, key=repr)
        nums = [c for c in p.conds if c[0] in ("bin", "call") and any(x in lengths for x in flow.walk(c)) and c not in lengths]
        nexts = [e for e in p.events if last(e[0]) in ("nocross_candidates",)]
        key = (tuple((c, p.conds[c]) for c in nums), tuple(e[1][1] for e in signs), p.stop, tuple(e[1][3] for e in nexts if len(e[1]) > 3))
        if key in done:
            continue
        done.add(key)
        if len(lengths) > 2:
            und += 1
            continue
        import itertools
        for ls in itertools.product(range(3), repeat=len(lengths)):
            v = dict(zip(lengths, ls))
            ok = True
            for c in nums:
                x = number(c, v)
                w = p.conds[c]
                if x is not None and (w[0] == "=" and x != w[1] or w[0] == "!=" and x in w[1]):
                    ok = False
            if not ok:
                continue
            at = [number(e[1][1], v) for e in signs]
            pos = [number(e[1][3], v) for e in nexts if len(e[1]) > 3]
            if None in at or None in pos or not pos:
                und += 1
                continue
            want = sorted(set(pos), key=pos.index)
            n += 1
            if at != want:
                bad = bad or (at, want)
    if not n:
        return und + 1
    rep.count("steps of the main loop", n)
    rep.check("emitted", "signs before what is at their position", not late, W, "what is at a position is put out before the signs of that position")
    rep.check("emitted", "signs of a position", bad is None, W, "signs are put out for the positions %s, while the positions reached are %s" % (bad or ("", "")))
    return und


def compiled(rep, P):
    return sets.assembled(rep, P, ["indicators"] + ["ComputerBraille"] + list(sets.CONSTRAINTS))


def gates(rep, P):
    return gate(rep, P, ("inside",))


def run(rep, L, B):
    rep.parts([union, asked, dispatch, collected, looked_up, emitted, compiled, gates], L)


LEVEL = "other"
EXPLANATION = ("The functions that join the constrainers' and indicators' results and those that are asked about them are read as decision trees over unnamed results and compared with the specified union, "
               "order and look-up; the compile function's paths are compared with the specified indicators and constrainers; the first two steps of the main loop are followed on all paths, for all lengths of a match up to two, "
               "and the positions whose signs are put out are compared with the positions reached.")
ASSUMPTIONS = ["texts of up to three characters (union) and two (signs), one or two constrainers or indicators", "what each indicator and constrainer computes is C17, C18, C20 to C22, C24 and C26's affair"]
