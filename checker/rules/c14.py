"""C14: patterns of context, correct, passN and match rules mean what they say."""
import flow
import truth
from prog import AnchorError
from terms import last, src, callee, short, calls_in, mentions
from rules.c12 import one, where, nm

EXPLANATION = ("Path-splitting provenance dataflow over the parsers of multipass tests, actions and match patterns, the compiler from patterns to "
               "matcher instructions and the matcher itself. For every kind of pattern the emitted instructions are read off each path as a "
               "program with symbolic positions, whose prioritised language is compared with that of the pattern; for every instruction the "
               "guards and continuations of the matcher are compared with its definition. The set of instructions already reached is evaluated over machine words "
               "(what is put in is found, nothing else is, every index has its word), is empty at every new position and marked before an instruction is followed; "
               "every rule of a pass goes into its patterns (backwards: every rule that puts something out), and the text of a literal action is the texts of its parts.")
LEVEL = "other"
ASSUMPTIONS = ["programs are compared on all their runs with at most %d repetitions of a loop and of a counted repetition" % 3,
               "a path whose terms do not resolve counts as undecided"]


class Unknown(Exception):
    pass


def run(rep, L, B):
    import rules.c14b as b
    import rules.c14c as c
    import rules.c14d as d
    rep.parts([emit, compile_payload, negate, add_thread, find, entry] + b.PARTS + c.PARTS + d.PARTS, L)


def variants(p, term):
    """the enum variant a path assumes for term"""
    v = p.conds.get(("discr", term))
    return v[1] if v and v[0] == "=" else None


def strip(t):
    """through box, clone, conversion and reference noise"""
    while True:
        if t[0] == "call" and last(t[1]) in ("new", "clone", "to_string", "into", "from", "to_owned", "deref", "as_str", "as_ref", "borrow", "as_slice", "to_vec") and t[2] and \
                not ("CharacterClass" in t[1] and last(t[1]) == "from"):
            t = t[2][0]
        elif t[0] == "un" and t[1] == "cast" or t[0] == "cast":
            t = t[-1]
        else:
            return t


def fld(t, base):
    """index of the field of base a term is, else None"""
    t = strip(t)
    if t[0] == "fld" and t[1] == base and str(t[3]).isdigit():
        return int(t[3])
    return None


# ---- emitted programs ---------------------------------------------------------------------------
LEAF = {"Literal": ("Char", (0,)), "Any": ("Any", ()), "VariableEqual": ("VariableEqual", (0, 1)), "NotVariableEqual": ("NotVariableEqual", (0, 1)),
        "VariableCompare": ("VariableCompare", (0, 1, 2)), "EndAnchor": ("AssertEnd", ()), "NotEndAnchor": ("AssertMoreInput", ()),
        "StartAnchor": ("AssertStart", ()), "NotStartAnchor": ("AssertNotStart", ()), "Never": ("Fail", ())}
EACH = {"String": "Char", "NotString": "NotChar", "CaseInsensitiveString": "CaseInsensitiveChar"}
CLASS = {"CharacterClass": "Class", "NotCharacterClass": "NotClass"}


def words(prog, limit):
    """runs of a program in order of priority, as tuples of symbols; at most `limit` blocks in a run"""
    out = []

    def go(pc, w, seen):
        while True:
            if len([s for s in w if s[0] == "B"]) > limit or len(out) > 4000:
                return
            if pc == len(prog):
                out.append(w)
                return
            if pc > len(prog) or pc < 0:
                raise Unknown("jump outside the program")
            i = prog[pc]
            if i[0] in ("split", "jump"):
                if pc in seen:
                    return
                seen = seen | {pc}
            if i[0] == "jump":
                pc = i[1]
            elif i[0] == "split":
                go(i[1], w, seen)
                pc = i[2]
            else:
                w, pc, seen = w + (i,), pc + 1, frozenset()
    go(0, (), frozenset())
    return out


def star(b):
    return [("split", 1, 3), b, ("jump", 0)]


def shift(prog, n):
    return [(i[0],) + tuple(x + n for x in i[1:]) if i[0] in ("split", "jump") else i for i in prog]


def optional(body):
    return [("split", 1, len(body) + 1)] + shift(body, 1)


def expected(v, n, m, k):
    """canonical program for a pattern of variant v with repetition bounds n, m and k characters"""
    B = [("B", 0), ("B", 1), ("B", 2)]
    if v == "Concat":
        return [B[0], B[1]]
    if v == "Either":
        return [("split", 1, 3), B[0], ("jump", 4), B[1]]
    if v == "Optional":
        return [("split", 1, 2), B[0]]
    if v == "ZeroOrMore":
        return star(B[0])
    if v == "OneOrMore":
        return [B[0], ("split", 0, 2)]
    if v == "RepeatExactly":
        return [B[1]] * n
    if v == "RepeatAtLeast":
        return [B[1]] * n + shift(star(B[1]), n)
    if v == "RepeatAtLeastAtMost":
        tail = []
        for _ in range(max(0, m - n)):
            tail = optional([B[2]] + shift(tail, 1))
        return [B[2]] * n + shift(tail, n)
    if v == "Capture":
        return [("I", "CaptureStart", ()), B[0], ("I", "CaptureEnd", ())]
    if v == "Group":
        return [B[0]]
    if v == "Empty":
        return []
    if v in LEAF:
        return [("I", LEAF[v][0], tuple(("field", x) for x in LEAF[v][1]))]
    if v in CLASS:
        return [("I", CLASS[v], (("set", 0),))]
    if v in EACH:
        return [("I", EACH[v], (("char", i),)) for i in range(k)]
    return None


class Emission:
    """the program a path through the emitter builds"""

    def __init__(self, p, me, code, sets):
        self.p, self.me, self.code, self.sets = p, me, code, sets
        self.items, self.at, self.set_items, self.pushed, self.iters = [], {}, [], {}, {}
        self.eqs = []
        self.chars = 0
        self.order = {}
        for e in p.events:
            self.event(e)
        self.items = [self.close(i) for i in self.items]
        self.loops()

    def own(self, t, what):
        while t[0] == "mut":
            t = t[3]
        return t == what

    def event(self, e):
        n, a = last(e[0]), e[1]
        if n == "len" and a and self.own(a[0], self.code):
            self.at[e[2]] = len(self.items)
        elif n == "len" and a and self.own(a[0], self.sets):
            self.at[e[2]] = ("set", len(self.set_items))
        elif n == "push" and self.own(a[0], self.code):
            self.items.append(a[1])
        elif n == "push" and self.own(a[0], self.sets):
            if fld(a[1], self.me) != 0:
                raise Unknown("class")
            self.set_items.append(a[1])
        elif n == "push":
            r = a[0]
            d = 0
            while r[0] == "mut":
                r, d = r[3], d + 1
            if r[0] == "call":
                self.pushed.setdefault(r[3], []).append(a[1])
        elif n == "emit":
            k = fld(a[0], self.me)
            if k is None or not self.own(a[1], self.code) or not self.own(a[2], self.sets):
                raise Unknown("emit")
            self.items.append(("B", k))
        elif n == "store":
            pl = a[0]
            if pl[0] != "call" or last(pl[1]) != "index_mut" or not self.own(pl[2][0], self.code):
                raise Unknown("store")
            i = self.pos(pl[2][1])
            if not isinstance(i, int) or i >= len(self.items):
                raise Unknown("store at %s" % (i,))
            self.items[i] = a[1]
        elif n == "next":
            pass
        elif any(self.own(x, self.code) or self.own(x, self.sets) for x in a) and n not in ("index_mut", "index", "deref", "deref_mut", "as_mut", "reserve"):
            raise Unknown(n)

    def pos(self, t):
        """the position a usize term stands for"""
        if t[0] == "call" and last(t[1]) == "len" and t[3] in self.at:
            return self.at[t[3]]
        if t[0] == "const":
            return t[1]
        if t[0] == "bin" and t[1] in ("Add", "Sub"):
            a, b = self.pos(t[2]), self.pos(t[3])
            if not isinstance(b, int) or t[3][0] != "const":
                raise Unknown("position")
            s = b if t[1] == "Add" else -b
            if isinstance(a, tuple):
                return ("set", a[1] + s)
            # a position is only known relative to single instructions
            lo, hi = sorted((a, a + s))
            for i in range(max(lo, 0), min(hi, len(self.items))):
                if self.items[i][0] == "B":
                    raise Unknown("offset across a block")
            return a + s
        if t[0] == "fld" and t[2] in ("+", "Some") and t[1][0] == "call" and last(t[1][1]) == "next":
            it, d = t[1][2][0], 0
            r = it
            names = []
            while r[0] in ("mut", "call") and (r[0] == "mut" or last(r[1]) in ("into_iter", "iter", "drain")):
                if r[0] == "mut":
                    names.append(last(r[2]))
                    r = r[3]
                else:
                    r = r[2][0]
            i = names.count("next")
            if r[0] == "call" and r[3] in self.pushed and i < len(self.pushed[r[3]]):
                return self.pos(self.pushed[r[3]][i])
        raise Unknown("position %s" % short(t)[:60])

    def close(self, i):
        if i[0] == "B":
            return i
        if i[0] != "agg":
            raise Unknown("instruction")
        v, ops = i[2], i[4]
        if v == "Jump":
            return ("jump", self.pos(ops[0]))
        if v == "Split":
            return ("split", self.pos(ops[0]), self.pos(ops[1]))
        return ("I", v, tuple(self.operand(o) for o in ops))

    def operand(self, t):
        k = fld(t, self.me)
        if k is not None:
            return ("field", k)
        t = strip(t)
        if t[0] == "fld" and t[2] in ("+", "Some") and t[1][0] == "call" and last(t[1][1]) == "next":
            r, i = t[1][2][0], 0
            while r[0] == "mut":
                i += last(r[2]) == "next"
                r = r[3]
            if r[0] == "call" and last(r[1]) == "chars" and fld(r[2][0], self.me) == 0:
                return ("char", i)
        return self.pos(t)

    def loops(self):
        """how often each loop of the path runs, as equations over the repetition bounds"""
        runs = {}
        for c, v in self.p.conds.items():
            if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next":
                r = c[1][2][0]
                while r[0] == "mut":
                    r = r[3]
                runs.setdefault(r, [0, False])
                if v == ("=", "+"):
                    runs[r][0] += 1
                elif v == ("=", "-"):
                    runs[r][1] = True
        for r, (n, done) in runs.items():
            if not done:
                raise Unknown("unfinished loop")
            b = r
            while b[0] == "call" and last(b[1]) in ("into_iter", "iter", "drain", "rev", "chars", "enumerate", "zip"):
                if last(b[1]) == "rev":
                    raise Unknown("reversed")
                if last(b[1]) == "chars" and fld(b[2][0], self.me) == 0:
                    self.chars = n
                    b = None
                    break
                b = b[2][0]
            if b is None:
                continue
            if b[0] == "agg" and b[2] == "Range":
                f = dict(zip(b[3], b[4]))
                self.eqs.append((self.lin(f["end"]), self.lin(f["start"]), n))
            elif b[0] == "call" and b[3] in self.pushed:
                if len(self.pushed[b[3]]) != n:
                    raise Infeasible()
            elif b[0] == "call" and last(b[1]) in ("new", "default", "with_capacity"):
                if n:
                    raise Infeasible()
            else:
                raise Unknown("loop over %s" % short(b)[:60])

    def lin(self, t):
        t = strip(t)
        k = fld(t, self.me)
        if k is not None:
            return ({k: 1}, 0)
        if t[0] == "const":
            return ({}, t[1])
        if t[0] == "bin" and t[1] in ("Sub", "Add"):
            a, b = self.lin(t[2]), self.lin(t[3])
            s = 1 if t[1] == "Add" else -1
            r = dict(a[0])
            for k, x in b[0].items():
                r[k] = r.get(k, 0) + s * x
            return (r, a[1] + s * b[1])
        if t[0] == "call" and last(t[1]) == "saturating_sub":
            return self.lin(("bin", "Sub", t[2][0], t[2][1]))
        raise Unknown("bound")

    def bounds(self, n, m):
        """do the loop counts of the path belong to repetition bounds n, m?"""
        val = {0: n, 1: m}
        for e, s, c in self.eqs:
            ev = sum(k * val[x] for x, k in e[0].items()) + e[1]
            sv = sum(k * val[x] for x, k in s[0].items()) + s[1]
            if max(0, ev - sv) != c:
                return False
        return True


class Infeasible(Exception):
    pass


def emit(rep, P):
    f = one(P, "regexp::Regexp::emit")
    und, done = 0, set()
    paths = flow.Flow(P, loop_bound=2).paths(f)
    for p in paths:
        v = variants(p, ("arg", 1))
        if v is None or p.trunc or p.div:
            continue
        if expected(v, 0, 0, 0) is None:
            continue
        try:
            em = Emission(p, ("arg", 1), ("arg", 2), ("arg", 3))
            for n in range(3):
                for m in range(4):
                    if not v.startswith("Repeat") and (n or m) or v in ("RepeatExactly", "RepeatAtLeast") and m:
                        continue
                    if not em.bounds(n, m):
                        continue
                    want = expected(v, n, m, em.chars)
                    got = em.items
                    ok = words(got, 4) == words(want, 4)
                    done.add((v, n, m, em.chars))
                    rep.check("emit", "%s %d %d %d" % (v, n, m, em.chars), ok, where(f),
                              "the instructions for %s match %s instead of %s" % (pattern_name(v, n, m), show(got), show(want)))
        except Infeasible:
            continue
        except Unknown as e:
            und += 1
    for v in EACH:
        ks = {d[3] for d in done if d[0] == v}
        if ks and max(ks) < 2 and not any(p.trunc for p in paths if variants(p, ("arg", 1)) == v):
            rep.check("emit", v + " of any length", False, where(f), "of the characters of %s no more than %d are looked at" % (v, max(ks)))
    rep.floor("kinds of patterns whose instructions were resolved", len({d[0] for d in done}), 18)
    return und


def pattern_name(v, n, m):
    return {"RepeatExactly": "%d repetitions" % n, "RepeatAtLeast": "at least %d repetitions" % n,
            "RepeatAtLeastAtMost": "%d to %d repetitions" % (n, m)}.get(v, v)


def show(prog):
    try:
        w = words(prog, 4)
    except Unknown:
        return "nothing known (a jump leads outside)"
    t = []
    for x in w[:6]:
        t.append(" ".join("<%s>" % s[1] if s[0] == "B" else s[1] for s in x) or "(nothing)")
    return " | ".join(t) or "(never)"


def compile_payload(rep, P):
    """the instructions of a pattern are followed by the match instruction that carries its payload"""
    f = one(P, "Regexp::compile_with_payload")
    und = 0
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        seq = []
        for e in p.events:
            n = last(e[0])
            if n == "emit":
                seq.append("emit" if e[1][0] == ("arg", 1) else "other")
            elif n == "push" and e[1][1][0] == "agg":
                seq.append((e[1][1][2], e[1][1][4]))
        r = p.ret
        if r[0] != "agg" or not seq:
            und += 1
            continue
        ok = seq == ["emit", ("Match", (("const", 0),))]
        rep.check("compile", "emit then match", ok, where(f), "a compiled pattern does not consist of its instructions followed by the match instruction")
        pay = [o for o in r[4] if any(x == ("arg", 2) for x in flow.walk(o))]
        rep.check("compile", "payload", len(pay) == 1, where(f), "a compiled pattern does not carry its translation")
    return und


# ---- negation -----------------------------------------------------------------------------------
NEG = {"Any": {("Never",)}, "CharacterClass": {("NotCharacterClass", 0)}, "NotCharacterClass": {("CharacterClass", 0)}, "String": {("NotString", 0)},
       "NotString": {("String", 0)}, "VariableEqual": {("NotVariableEqual", 0, 1)}, "NotVariableEqual": {("VariableEqual", 0, 1)}, "Empty": {("Never",)},
       "Never": {("Empty",), ("Any",)}, "EndAnchor": {("NotEndAnchor",)}, "NotEndAnchor": {("EndAnchor",)}, "StartAnchor": {("NotStartAnchor",)},
       "NotStartAnchor": {("StartAnchor",)}, "Group": {("Group", "n0")}}
NEGOP = {"Eq": {("NotVariableEqual", 0, 2)}, "Gt": {("VariableCompare", 0, "LtEq", 2)}, "Lt": {("VariableCompare", 0, "GtEq", 2)},
         "GtEq": {("VariableCompare", 0, "Lt", 2)}, "LtEq": {("VariableCompare", 0, "Gt", 2)}}


def shape(t, me):
    """constructor term -> (variant, field numbers / names)"""
    t0 = strip(t) if t[0] == "call" and last(t[1]) in ("new", "into", "from") else t
    if t0[0] != "agg":
        raise Unknown("constructor")
    out = [t0[2]]
    for o in t0[4]:
        o = strip(o) if o[0] == "call" and last(o[1]) in ("new", "clone", "to_string", "into") else o
        k = fld(o, me)
        if k is not None:
            out.append(k)
        elif o[0] == "call" and last(o[1]) == "negate" and fld(o[2][0], me) is not None:
            out.append("n%d" % fld(o[2][0], me))
        elif o[0] == "agg" and not o[4]:
            out.append(o[2])
        else:
            raise Unknown("operand")
    return tuple(out)


def negate(rep, P):
    f = one(P, "regexp::Regexp::negate")
    und, done = 0, 0
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        v = variants(p, ("arg", 1))
        want = NEG.get(v)
        name = v
        if v == "VariableCompare":
            op = variants(p, ("fld", ("arg", 1), "VariableCompare", "1"))
            op = op or next((x[1] for c, x in p.conds.items() if c[0] == "discr" and fld(c[1], ("arg", 1)) == 1 and x[0] == "="), None)
            want, name = NEGOP.get(op), "comparison %s" % op
        if want is None:
            continue
        try:
            got = shape(p.ret, ("arg", 1))
        except Unknown:
            und += 1
            continue
        done += 1
        if got[0] == "Never" and ("Never",) not in want or got[0] != "Never":
            pass
        rep.check("negate", name, got in want, where(f), "the negation of %s is %s%s" % (name, got[0], list(got[1:]) or ""))
    rep.floor("negations resolved", done, 12)
    return und


# ---- the matcher --------------------------------------------------------------------------------
# operands of an instruction, position sp, length n and whether the input starts the text
EPS = {"Jump": lambda a: True, "Split": lambda a: True, "CaptureStart": lambda a: True, "CaptureEnd": lambda a: True,
       "VariableEqual": lambda a: a["var"] == a["val"], "NotVariableEqual": lambda a: a["var"] != a["val"],
       "VariableCompare": lambda a: {"Eq": a["var"] == a["val"], "Gt": a["var"] > a["val"], "Lt": a["var"] < a["val"], "GtEq": a["var"] >= a["val"], "LtEq": a["var"] <= a["val"]}[a["op"]],
       "AssertEnd": lambda a: a["sp"] == a["len"], "AssertMoreInput": lambda a: a["sp"] != a["len"],
       "AssertStart": lambda a: bool(a["start"] and a["sp"] == 0), "AssertNotStart": lambda a: not (a["start"] and a["sp"] == 0), "Fail": lambda a: False}
CONSUMING = ("Char", "NotChar", "CaseInsensitiveChar", "Class", "NotClass", "Any", "Match")
# parameters of the function that follows the transitions: matcher, list, pc, capture, position, length, at start, variables
ME, LIST, PC, CAP, SPOS, LEN, START, ENV = (("arg", i) for i in range(1, 9))


def add_thread(rep, P):
    f = one(P, "CompiledRegexp::add_thread")
    und, done = 0, set()
    paths = [p for p in flow.Flow(P).paths(f) if not p.trunc and not p.div]
    insn = {c[1] for p in paths for c in p.conds if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "index"}
    insn = {i for i in insn if any(x == PC for x in flow.walk(i))}
    if not insn:
        return 1
    shapes = {(i[1], i[2]) for i in insn}
    if len(shapes) != 1 or not any(last(e[0]) == "add_thread" for p in paths for e in p.events):
        return 1
    fn, ia = shapes.pop()

    def at(t):
        return t[0] == "call" and t[1] == fn and t[2] == ia

    def operand(t):
        return int(t[3]) if t[0] == "fld" and at(t[1]) and str(t[3]).isdigit() else None
    by = {}
    for p in paths:
        v = None
        op = None
        seen = None
        rest = []
        for c, x in p.conds.items():
            if c[0] == "discr" and at(c[1]):
                v = x
            elif c[0] == "discr" and operand(c[1]) == 1:
                op = x
            elif c[0] == "call" and last(c[1]) in ("get", "contains", "insert") and len(c[2]) == 2 and c[2][1] == PC:
                seen = x if last(c[1]) != "insert" else ("=", 1 - x[1])
            else:
                rest.append((c, x))
        by.setdefault((v, op), []).append((seen, rest, p))
    for (v, op), ps in sorted(by.items(), key=str):
        if v is None:
            for seen, rest, p in ps:
                if seen == ("=", 1):
                    rep.check("matcher", "visited once", not actions(p), where(f), "an instruction already reached at this position is followed again")
            continue
        if v[0] != "=":
            rest_ok = all(x in v[1] for x in EPS)
            for seen, rest, p in ps:
                a = actions(p)
                th = [e for e in a if e[0] == "thread"]
                rep.check("matcher", "thread", len(a) == 1 and len(th) == 1 and th[0][1] == (PC, CAP), where(f), "an instruction that reads a character is not waited for as it should be")
                rep.check("matcher", "all conditions", rest_ok, where(f), "instructions %s are not tested" % ", ".join(x for x in EPS if x not in v[1]))
            continue
        name = v[1]
        if name in CONSUMING:
            for seen, rest, p in ps:
                th = actions(p)
                rep.check("matcher", "thread " + name, len(th) == 1 and th[0] == ("thread", (PC, CAP)), where(f), "instruction %s is not waited for as it should be" % name)
            continue
        if name not in EPS:
            continue
        ops = [op[1]] if op and op[0] == "=" else ["Eq", "Gt", "Lt", "GtEq", "LtEq"]
        val = 2 if name == "VariableCompare" else 1

        def leafs(a):
            def leaf(t):
                if t == SPOS:
                    return a["sp"]
                if t == LEN:
                    return a["len"]
                if t == START:
                    return a["start"]
                if operand(t) == val:
                    return a["val"]
                if t[0] == "call" and last(t[1]) == "get" and t[2][0] == ENV and operand(t[2][1]) == 0:
                    return a["var"]
                return None
            return leaf
        dom = {"op": ops}
        if name.startswith("Assert"):
            dom.update({"sp": (0, 1, 2), "len": (0, 1, 2), "start": (0, 1)})
        elif "Variable" in name:
            dom.update({"var": (0, 1, 2), "val": (0, 1, 2)})
        for a in truth.table(dom):
            if "sp" in a and a["sp"] > a["len"]:
                continue
            try:
                hit = [p for seen, rest, p in ps if truth.admits(rest, leafs(a))]
            except (truth.NoValue, KeyError):
                und += 1
                continue
            if len(hit) != 1:
                und += 1
                continue
            done.add(name)
            acts = actions(hit[0])
            want = []
            if EPS[name](a):
                nxt = ("next", PC, 1)
                want = {"Jump": [("op", 0, CAP)], "Split": [("op", 0, CAP), ("op", 1, CAP)], "CaptureStart": [(nxt, (SPOS, None))],
                        "CaptureEnd": [(nxt, (("first", CAP), SPOS))]}.get(name, [(nxt, CAP)])
            ok = len(acts) == len(want) and all(follows(x, w, operand) for x, w in zip(acts, want))
            rep.check("matcher", "%s %s" % (name, sorted((k, x) for k, x in a.items() if k != "op" or name == "VariableCompare")), ok, where(f),
                      "instruction %s with %s continues at %s" % (name + (" " + a["op"] if name == "VariableCompare" else ""),
                                                                 {k: x for k, x in a.items() if k != "op"}, [show_act(x) for x in acts] or "nothing"))
    rep.floor("conditions of the matcher resolved", len(done), 9)
    return und


def actions(p):
    out = []
    for e in p.events:
        n = last(e[0])
        if n == "add_thread":
            out.append(("go", e[1]))
        elif n == "push" and len(e[1]) == 2 and e[1][1][0] == "agg":
            f = dict(zip(e[1][1][3], e[1][1][4]))
            out.append(("thread", tuple(e[1][1][4])))
        elif n == "insert" and len(e[1]) == 2 and e[1][1] == PC:
            pass
    return out


def show_act(x):
    return ",".join(short(t)[:60] for t in (x[1][2:4] if x[0] == "go" else x[1]))


def follows(act, want, operand):
    if act[0] != "go":
        return False
    a = act[1]
    if a[0] != ME or a[4:] != (SPOS, LEN, START, ENV):
        return False
    if want[0] == "op":
        return operand(a[2]) == want[1] and a[3] == want[2]
    pc = a[2] == ("bin", "Add", PC, ("const", 1)) or a[2] == ("bin", "Add", ("const", 1), PC)
    c = want[1]
    if isinstance(c, tuple) and len(c) == 2 and c != CAP:
        if a[3][0] != "tuple":
            return False
        x, y = a[3][1]
        first = x == SPOS if c[0] == SPOS else x[0] == "fld" and x[1] == CAP and str(x[3]) == "0"
        return pc and first and (c[1] is None or y == c[1])
    return pc and a[3] == c


READ = {"Char": [("eq", True)], "NotChar": [("present", True), ("eq", False)], "CaseInsensitiveChar": [("present", True), ("fold", True)],
        "Class": [("present", True), ("in", True)], "NotClass": [("present", True), ("in", False)], "Any": [("present", True)]}


def find(rep, P):
    """what the matcher does with the threads that wait for a character"""
    f = one(P, "CompiledRegexp::find_anchored")
    und, done = 0, set()
    INPUT = ("arg", 2)
    maps = {n for n, g in P.fns.items() if g.argc == 1 and P.tstr(g.ret_ty()) == "char" and P.tstr(g.lty(1)) == "char"}
    fl = flow.Flow(P, opaque=maps, inline_pred=lambda g: P.tstr(g.ret_ty()) == "bool" and g.argc == 2 and P.tstr(g.lty(1)) == "char")
    for p in fl.paths(f):
        if p.div:
            continue
        conds = list(p.conds.items())
        # the threads of the path: (instruction term, thread term, variant, index in the list of conditions)
        th = []
        for i, (c, x) in enumerate(conds):
            if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "index" and c[1][2][0][0] == "fld" and x[0] == "=":
                pc = c[1][2][1]
                t = pc[1] if pc[0] == "fld" else None
                if t and t[0] == "fld" and t[2] in ("+", "Some"):
                    th.append((c[1], t, x[1], i))
        for k, (ins, t, v, i) in enumerate(th):
            end = len(conds)
            for j in range(i + 1, len(conds)):
                c = conds[j][0]
                if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next" and not any(last(y[1]) == "chars" for y in calls_in(c[1])):
                    end = j
                    break
            mine = [e for e in p.events if last(e[0]) == "add_thread" and any(y == t for y in flow.walk(("tuple", e[1][2:4])))]
            if v == "Match":
                later = any(c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next" and any(y == t[1] or (y[0] == "mut" and y[3] == t[1][2][0]) for y in flow.walk(c[1]))
                            for c, _ in conds[i + 1:])
                rep.check("matcher", "match ends the step", not later, where(f), "alternatives of lower priority than the one that matched are still followed")
                done.add("Match")
                continue
            if v not in READ:
                continue
            facts = {}
            bad = False
            for j, (c, x) in enumerate(conds):
                if j >= end:
                    break
                r = char_fact(c, x, ins, INPUT)
                if r is None:
                    if j > i:
                        bad = True
                    continue
                facts[r[0]] = r[1]
            rep.check("matcher", "letter case of " + v, "half" not in facts, where(f), "instruction %s folds the case of only one of the characters it compares" % v)
            if bad or "half" in facts:
                und += 1
                continue
            if facts.get("eq"):
                facts["present"] = True
            want = READ[v]
            allowed = all(facts.get(n) is b for n, b in want)
            denied = any(n in facts and facts[n] is not b for n, b in want)
            if not mine and not allowed and not denied and end == len(conds) and p.trunc:
                continue
            done.add(v)
            if mine:
                rep.check("matcher", "reads " + v, allowed, where(f), "instruction %s goes on although its condition is not known to hold (%s)" % (v, facts))
                for e in mine:
                    a = e[1]
                    ok = a[0] == ("arg", 1) and step(a[2], ("fld", t, t[2] and "", "pc"), t, "pc") and field(a[3], t, "capture") and advanced(a[4], ins, v) \
                        and a[5][0] == "call" and last(a[5][1]) == "len" and a[5][2][0] == INPUT and a[6] == ("arg", 4) and a[7] == ("arg", 3)
                    rep.check("matcher", "after " + v, ok, where(f), "after instruction %s the matcher goes on at %s" % (v, ", ".join(short(x)[:60] for x in a[2:])))
            else:
                rep.check("matcher", "refuses " + v, denied, where(f), "instruction %s is dropped although its condition is not known to fail (%s)" % (v, facts))
    rep.floor("instructions that read a character resolved", len(done), 5)
    return und


def field(t, base, name):
    return t[0] == "fld" and t[1] == base and str(t[3]) == name


def step(t, _, base, name):
    return t[0] == "bin" and t[1] == "Add" and (field(t[2], base, name) and t[3] == ("const", 1) or field(t[3], base, name) and t[2] == ("const", 1))


def the_char(t):
    """is the term the next character of the input?"""
    return t[0] == "fld" and t[2] in ("+", "Some") and next_char(t[1])


def next_char(t):
    return t[0] == "call" and last(t[1]) == "next" and t[2][0][0] == "call" and last(t[2][0][1]) == "chars"


def advanced(t, ins, v):
    """position + the length of the character just read"""
    if t[0] != "bin" or t[1] != "Add":
        return t[0] == "call" and last(t[1]) == "len_utf8" and t_len(t, ins, v)          # 0 + n
    return any(x[0] == "call" and last(x[1]) == "len_utf8" and t_len(x, ins, v) for x in (t[2], t[3]))


def t_len(x, ins, v):
    c = strip(x[2][0])
    return the_char(c) or v == "Char" and fld(c, ins) == 0


def char_fact(c, x, ins, inp):
    val = x[1] if x[0] == "=" else None
    if c[0] == "discr" and next_char(c[1]):
        return ("present", val in ("+", "Some")) if val is not None else None
    if c[0] == "call" and last(c[1]) in ("is_some", "is_none") and next_char(c[2][0]):
        return ("present", (last(c[1]) == "is_some") == bool(val))
    neg = False
    if c[0] == "bin" and c[1] in ("Eq", "Ne") or c[0] == "call" and last(c[1]) in ("eq", "ne"):
        neg = c[1] == "Ne" or last(c[1]) == "ne"
        a, b = (c[2], c[3]) if c[0] == "bin" else c[2]
        for a, b in ((a, b), (b, a)):
            b1 = b[4][0] if b[0] == "agg" and b[2] in ("Some", "+") and b[4] else b
            if (next_char(a) or the_char(a)) and fld(b1, ins) == 0:
                return ("eq", bool(val) != neg)
            ca, cb = casing(a), casing(b)
            if ca and cb and the_char(strip(ca[1])) and fld(cb[1], ins) == 0 and ca[0] == cb[0] != "":
                return ("fold", bool(val) != neg)
            if ca and cb and ca[0] != cb[0] and the_char(strip(ca[1])) and fld(cb[1], ins) == 0:
                return ("half", bool(val) != neg)
        return None
    if c[0] == "call" and last(c[1]) == "contains" and len(c[2]) == 2 and the_char(strip(c[2][1])) and any(fld(y, ins) == 0 for y in flow.walk(c[2][0])):
        return ("in", bool(val))
    if c[0] == "un" and c[1] == "Not":
        r = char_fact(c[2], x, ins, inp)
        return r and (r[0], not r[1])
    return None


def casing(t):
    """a character with its case folded: (how, character)"""
    t = strip(t)
    if t[0] == "agg" and t[2] in ("Some", "+"):
        t = strip(t[4][0])
    if t[0] == "call" and len(t[2]) == 1 and last(t[1]) not in ("next",):
        return last(t[1]), t[2][0]
    if t[0] == "call" and last(t[1]) == "next" and t[2][0][0] == "call" and last(t[2][0][1]) in ("to_lowercase", "to_uppercase"):
        return last(t[2][0][1]), t[2][0][2][0]
    return ("", t) if t[0] == "fld" else None


def entry(rep, P):
    """the matcher starts at the first instruction and position, and what it reports describes the match"""
    f = one(P, "CompiledRegexp::find_anchored")
    und = 0
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        first = next((e for e in p.events if last(e[0]) == "add_thread"), None)
        if first is None:
            und += 1
            continue
        a = first[1]
        ok = a[0] == ("arg", 1) and a[2] == ("const", 0) and a[4] == ("const", 0) and last(a[5][1] if a[5][0] == "call" else "") == "len" and a[5][2][0] == ("arg", 2) and \
            a[6] == ("arg", 4) and a[7] == ("arg", 3)
        rep.check("matcher", "start", ok, where(f), "matching does not start at the first instruction and the start of the input")
    for n, at in (("CompiledRegexp::find", 0), ):
        g = one(P, n)
        for p in flow.Flow(P).paths(g):
            e = [e for e in p.events if last(e[0]) == "find_anchored"]
            if len(e) == 1 and not p.trunc:
                rep.check("matcher", n, e[0][1] == (("arg", 1), ("arg", 2), ("arg", 3), ("const", at)), where(g), "%s does not search the given input" % n)
    und += report(rep, P, f)
    return und


def report(rep, P, f):
    """capture, length and offset of the reported match"""
    und = 0
    for p in flow.Flow(P, loop_bound=1).paths(f):
        if p.trunc or p.div or p.ret is None:
            continue
        for x in flow.walk(p.ret):
            if x[0] == "tuple" and len(x[1]) == 3 and x[1][0][0] == "fld" and x[1][0][3] == "capture":
                i = x[1][2]
                rep.check("matcher", "match payload", i[0] == "fld" and i[1][0] == "call" and last(i[1][1]) == "index" and any(y == x[1][0][1] for y in flow.walk(i)), where(f),
                          "a match does not report its own payload")
    # the closure or code that turns the match into a translation
    cl = [g for n, g in P.fns.items() if n.startswith(f.path + "::{closure")]
    for g in cl:
        for p in flow.Flow(P).paths(g):
            e = [e for e in p.events if last(e[0]) == "resolve"]
            if len(e) != 1 or p.trunc:
                continue
            a = e[0][1]
            cap = a[1]
            if cap[0] != "call" or last(cap[1]) != "index" or cap[2][1][0] != "agg":
                und += 1
                continue
            r = dict(zip(cap[2][1][3], cap[2][1][4]))
            s, t = r.get("start"), r.get("end")
            okc = s is not None and t is not None and s[0] == "fld" and t[0] == "fld" and str(s[3]) == "0" and str(t[3]) == "1" and s[1] == t[1]
            rep.check("matcher", "captured text", okc, where(g), "the captured text is not the text between the start and the end of the capture")
            o = a[3]
            oo = o[0] == "call" and last(o[1]) == "count" and any(y[0] == "agg" and y[2] in ("RangeTo", "Range") and s in y[4] for y in flow.walk(o))
            cut = [y for y in flow.walk(o) if y[0] == "fld" and y[1][0] == "call" and last(y[1][1]) == "split_at"]
            if not oo and o[0] == "call" and last(o[1]) == "count" and cut:
                oo = all(str(y[3]) == "0" and y[1][2][1] == s for y in cut)
            elif not oo and o != s and o[0] != "const" and not any(y[0] == "agg" and y[2].startswith("Range") for y in flow.walk(o)):
                und += 1
                continue
            rep.check("matcher", "offset", oo, where(g), "the offset is not the number of characters before the capture")
            rep.check("matcher", "length", a[2][0] == "fld" and str(a[2][3]) == "1" and a[2][1] == s[1][1] if okc else True, where(g), "the reported length is not that of the match")
    return und
