"""Reads the productions of a hand-written recursive-descent parser off its paths: for every path the characters it consumes
(as sets), the sub-parsers it calls and the value it returns."""
import flow
import truth
from terms import last, short

CHARS = [chr(i) for i in range(32, 127)] + ["\t", "é"]
DIGIT = frozenset("0123456789")
PRED = {"is_ascii_digit": lambda c: c in DIGIT, "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_alphabetic": str.isalpha, "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
        "is_alphanumeric": str.isalnum, "is_whitespace": str.isspace, "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c", "is_numeric": str.isnumeric, "is_ascii": str.isascii,
        "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF", "is_uppercase": str.isupper, "is_lowercase": str.islower, "is_ascii_uppercase": lambda c: c.isascii() and c.isupper(),
        "is_ascii_lowercase": lambda c: c.isascii() and c.islower(), "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " "}
READS = ("peek", "next", "next_if", "next_if_eq", "peek_mut")


class Symbol:
    """one character position: the reads that look at it, and whether it is consumed"""

    def __init__(self):
        self.reads = []
        self.consumed = False
        self.allowed = frozenset(CHARS)
        self.present = None

    def render(self):
        if len(self.allowed) == 1:
            return next(iter(self.allowed))
        return name_set(self.allowed)


def name_set(s):
    names = {"digit": lambda c: c in DIGIT, "alpha": lambda c: c.isascii() and c.isalpha(), "1-7": lambda c: c in "1234567", "0-7": lambda c: c in "01234567", "dots": lambda c: c in "0123456789abcdef-", "any": lambda c: True}
    for n, f in names.items():
        if s == frozenset(c for c in CHARS if f(c)):
            return "<:%s>" % n
    if len(s) > len(CHARS) // 2:
        return "<:not %s>" % "".join(sorted(set(CHARS) - s))
    return "<:%s>" % "".join(sorted(s))


class Production:
    def __init__(self, path):
        self.path = path
        self.items = []           # Symbol or ("nt", name, term)
        self.ret = path.ret

    def text(self):
        return "".join(x.render() if isinstance(x, Symbol) else "<%s>" % x[1] for x in self.items if not isinstance(x, Symbol) or x.consumed)

    def rank(self, term):
        """which sub-parser call a term is the result of"""
        for y in flow.walk(term):
            for i, x in enumerate([x for x in self.items if not isinstance(x, Symbol)]):
                if y == x[2]:
                    return i
        return None

    def literals(self):
        return "".join(x.render() for x in self.items if isinstance(x, Symbol) and x.consumed and len(x.allowed) == 1)

    def parsers(self):
        return [x[1] for x in self.items if not isinstance(x, Symbol)]


class Reader:
    def __init__(self, P, prefix, keep):
        """prefix: path of the parser's methods; keep: its methods that stand for a nonterminal (or consume)"""
        self.P, self.prefix, self.keep = P, prefix, keep
        self.sets = {}

    def fn(self, name):
        c = [g for n, g in self.P.fns.items() if n.startswith(self.prefix) and last(n) == name and "::tests::" not in n and "{" not in last(n)]
        if len(c) != 1:
            from prog import AnchorError
            raise AnchorError(self.prefix + " " + name)
        return c[0]

    def paths(self, name, loop_bound=1):
        return flow.Flow(self.P, loop_bound=loop_bound, inline_pred=lambda g: g.path.startswith(self.prefix) and "::tests::" not in g.path and last(g.path) not in self.keep and "{" not in last(g.path)).paths(self.fn(name))

    # ---- predicates ------------------------------------------------------------------------------
    def pred_set(self, closure):
        """characters a closure or function accepts, or None"""
        key = closure
        if key not in self.sets:
            self.sets[key] = self._pred_set(closure)
        return self.sets[key]

    def _pred_set(self, c):
        if c[0] == "fn" and last(c[1]) in PRED and c[1] not in self.P.fns:
            return frozenset(x for x in CHARS if PRED[last(c[1])](x))
        if c[0] not in ("closure", "fn") or c[1] not in self.P.fns:
            return None
        g = self.P.fns[c[1]]
        arg = ("arg", 2 if c[0] == "closure" else 1)
        out = set()
        paths = [p for p in flow.Flow(self.P, inline_pred=lambda h: h.ret_ty() == g.ret_ty() and h.path.startswith("crate::parser") and len(h.blocks) < 400).paths(g) if not p.div]
        for x in CHARS:
            vals = set()
            for p in paths:
                if p.trunc:
                    return None
                leaf = lambda t: x if t == arg else None
                try:
                    if truth.admits(list(p.conds.items()), lambda t: self.leaf(t, leaf)):
                        v = truth.value(p.ret, lambda t: self.leaf(t, leaf))
                        vals.add(bool(v))
                except truth.NoValue:
                    return None
            if vals == {True}:
                out.add(x)
            elif vals != {False}:
                return None
        return frozenset(out)

    def leaf(self, t, base):
        v = base(t)
        if v is not None:
            return v
        if t[0] == "call" and len(t[2]) >= 1:
            n = last(t[1])
            if n in PRED and t[1] not in self.P.fns:
                return int(PRED[n](truth.value(t[2][0], lambda y: self.leaf(y, base))))
            if t[1] in self.P.fns and len(t[2]) == 1:
                s = self.pred_set(("fn", t[1]))
                if s is not None:
                    return int(truth.value(t[2][0], lambda y: self.leaf(y, base)) in s)
        return None

    # ---- productions -----------------------------------------------------------------------------
    def productions(self, name, loop_bound=1):
        out, und = [], 0
        for p in self.paths(name, loop_bound):
            if p.trunc or p.div or p.ret is None:
                continue
            r = p.ret
            if r[0] == "agg" and r[2] in ("Err", "-") or r[0] == "resid":
                continue
            q = self.production(p)
            if q is None:
                und += 1
                continue
            if q == "impossible":
                continue
            out.append(q)
        return out, und

    def production(self, p):
        q = Production(p)
        cur = Symbol()
        q.items.append(cur)
        for callee, args, uid, loc in p.events:
            n = last(callee)
            term = ("call", callee, args, uid)
            if n in READS and args and self.chars(args[0]):
                if n in ("peek", "peek_mut"):
                    cur.reads.append(term)
                    continue
                v = p.conds.get(("discr", term))
                got = v == ("=", "+") or v == ("=", "Some") if v else None
                if n == "next":
                    cur.reads.append(term)
                    if v and v[1] in ("-", "None"):
                        continue
                    cur.consumed = True
                    cur = Symbol()
                    q.items.append(cur)
                    continue
                if got is None:
                    for c, x in p.conds.items():
                        if c[0] == "call" and last(c[1]) in ("is_some", "is_none") and c[2][0] == term and x[0] == "=":
                            got = (last(c[1]) == "is_some") == bool(x[1])
                if got is None:
                    return None
                s = frozenset([args[1][1]]) if n == "next_if_eq" and args[1][0] == "char" else self.pred_set(args[1]) if n == "next_if" else None
                if s is None:
                    return None
                if got:
                    cur.allowed &= s
                    cur.reads.append(term)
                    cur.consumed = True
                    cur = Symbol()
                    q.items.append(cur)
                else:
                    cur.allowed -= s
                continue
            if args and args[0] == ("arg", 1) and callee.startswith(self.prefix) and n in self.keep:
                v = p.conds.get(("discr", term))
                if n == "consume" and len(args) == 2 and args[1][0] == "char":
                    if v and v[1] in ("-", "Err"):
                        return "impossible"
                    cur.allowed &= frozenset([args[1][1]])
                    cur.consumed = True
                else:
                    if not cur.reads:
                        q.items.pop()
                    q.items.append(("nt", n, term))
                cur = Symbol()
                q.items.append(cur)
        for s in [s for s in q.items if isinstance(s, Symbol)]:
            if not self.restrict(s, p):
                return "impossible"
        return q

    def chars(self, t):
        while t[0] in ("mut", "fld", "as"):
            if t[0] == "fld" and t[1] == ("arg", 1):
                return True
            t = t[3] if t[0] == "mut" else t[1]
        return t[0] == "arg"

    def restrict(self, s, p):
        """narrows the characters a position can hold by the guards of the path; False if none is left"""
        if not s.reads:
            return bool(s.allowed)
        reads = set(s.reads)
        conds = [(c, v) for c, v in p.conds.items() if any(y in reads for y in flow.walk(c))]
        keep = set()
        absent = not s.consumed
        for x in list(s.allowed) + [None]:
            def base(t):
                if t[0] == "discr" and t[1] in reads:
                    return "+" if x is not None else "-"
                if t[0] == "discr" and t[1][0] == "call" and last(t[1][1]) == "filter" and t[1][2][0] in reads:
                    ps = self.pred_set(t[1][2][1])
                    if ps is None:
                        return None
                    return "+" if x is not None and x in ps else "-"
                if t[0] == "call" and last(t[1]) in ("is_some", "is_none") and t[2][0][0] in ("call",) and (t[2][0] in reads or last(t[2][0][1]) == "filter"):
                    d = base(("discr", t[2][0]))
                    return None if d is None else int((d == "+") == (last(t[1]) == "is_some"))
                if t[0] == "call" and last(t[1]) in ("is_some_and", "is_none_or") and t[2][0] in reads:
                    ps = self.pred_set(t[2][1])
                    if ps is None:
                        return None
                    return int(x in ps) if x is not None else int(last(t[1]) == "is_none_or")
                if t in reads:
                    return ("opt", x)
                if t[0] == "agg" and t[2] in ("Some", "+") and t[4] and t[4][0][0] == "char":
                    return ("opt", t[4][0][1])
                if t[0] == "agg" and t[2] in ("None", "-"):
                    return ("opt", None)
                if t[0] == "fld" and t[2] in ("+", "Some") and t[1] in reads:
                    return x
                return None
            ok = True
            for c, v in conds:
                try:
                    val = truth.value(c, lambda t: self.leaf(t, base))
                except (truth.NoValue, TypeError):
                    continue
                val = int(val) if isinstance(val, bool) else val
                if val == "+" and (v[1] == "Some" or v[0] == "!=" and "Some" in v[1]):
                    val = "Some"
                if val == "-" and (v[1] == "None" or v[0] == "!=" and "None" in v[1]):
                    val = "None"
                if v[0] == "=" and val != v[1] or v[0] == "!=" and val in v[1]:
                    ok = False
                    break
            if ok and x is not None:
                keep.add(x)
            elif x is None and not ok:
                absent = False
        s.allowed = frozenset(keep)
        s.present = not absent
        return bool(keep) or absent and not s.consumed


def payload(t):
    """through Ok/Some wrappers of a result"""
    while t[0] == "agg" and t[2] in ("Ok", "Some", "+") and t[4]:
        t = t[4][0]
    return t
