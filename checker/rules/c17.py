"""C17: hyphenation: breaks are where the dictionary's patterns say, and a nocross rule never spans one.

Rule `file`: a dictionary is read line by line: white space around lines, empty lines, comments and the encoding line say nothing,
LEFTHYPHENMIN and RIGHTHYPHENMIN set the minima, everything else is a pattern; another encoding or a bad number is an error.
Rule `pattern`: a pattern is its characters that are no digits and, for each gap around them, the digit that stands there, or 0.
Rule `breaks`: a gap of a word is a break if the greatest value that a pattern found in the word, with a full stop before and after
it, gives the gap is odd, and enough characters of the word stand before and after it.
Rule `words`: the words of a text are its runs of letters, and each break is marked at the character before the gap.
Rule `nocross`: a nocross rule is a candidate exactly if none of the gaps between its characters is a break.
"""
import flow, words
from words import Reader, Undecided
from rules.c12 import where
from rules.c18 import check, seq_, tup, chr_, at, variants
from rules.c20 import inner
from rules.sets import given
from terms import last

HY = "crate::hyphenation::"
PC = "crate::translator::position_constraints::"
PT = "crate::translator::table::primary::PrimaryTable::"
KINDS = ("pattern", "", "UTF-8", "ISO8859-1", "#", "%", "LEFTHYPHENMIN", "RIGHTHYPHENMIN", ".a1b", "1a", "UTF-8x")
PATTERN = ("pattern", ".a1b", "1a", "UTF-8x")
NONE = ("none",)


def fields(P):
    """the fields of a table: the patterns and the two minima, by what is set when"""
    adt = P.adts.get(HY + "HyphenationTable")
    return [f[0] for v in adt["variants"] for f in v["fields"]] if adt else []


def file(rep, P):
    path = HY + "HyphenationTable::parse"
    if path not in P.fns:
        return 1
    f = P.fns[path]

    def kind(lf, x):
        if not (isinstance(x, tuple) and x[0] == "obj" and x[1].endswith(".trim")):
            raise Undecided("a line that is not trimmed")
        return KINDS[lf.w.ask(("int", x[1] + ".kind"), tuple(range(len(KINDS))))]

    def text(v):
        if isinstance(v, tuple) and v[0] == "text":
            return v[1]
        if isinstance(v, tuple) and v[0] == "lit":
            return v[1]
        raise Undecided("text")

    def trim(lf, a):
        return a[0] if a[0][0] == "obj" and a[0][1].endswith(".trim") else ("obj", a[0][1] + ".trim")

    def strip(lf, a):
        t = text(a[1])
        k = kind(lf, a[0])
        return ("some", ("obj", a[0][1] + ".rest")) if t and k.startswith(t) and t in KINDS else NONE

    def starts(lf, a):
        k = kind(lf, a[0])
        if a[1][0] == "seq":
            return any(k.startswith(text(x)) for x in a[1][1])
        return bool(text(a[1])) and k.startswith(text(a[1]))

    def number(lf, a):
        return ("some", ("obj", a[0][1] + ".number")) if lf.w.has(a[0][1] + ".number") else NONE

    def pattern(lf, a):
        return ("some", tup(("obj", a[0][1] + ".letters"), ("obj", a[0][1] + ".values"))) if lf.w.has(a[0][1] + ".letters") else NONE
    R = Reader(P, maxlen=2, bound=4, guide=("HyphenationTable::parse",),
               calls={"::lines": lambda lf, a: seq_([("obj", "l0"), ("obj", "l1")]), "::trim": trim, "<impl str>::is_empty": lambda lf, a: kind(lf, a[0]) == "",
                      "eq_ignore_ascii_case": lambda lf, a: kind(lf, a[0]) == text(a[1]).upper(), "starts_with": starts, "strip_prefix": strip,
                      "parse_hyphenmin": number, "parse_pattern": pattern})
    und = 0

    def want(lf):
        w = lf.w
        d = {"left": 1, "right": 1, "patterns": []}
        for i in range(2):
            x = ("obj", "l%d.trim" % i)
            k = kind(lf, x)
            if k in PATTERN or k == "UTF-8" and i or k == "ISO8859-1" and i:
                if not w.has(x[1] + ".letters"):
                    return "an error"
                d["patterns"].append(tup(("obj", x[1] + ".letters"), ("obj", x[1] + ".values")))
            elif k == "ISO8859-1":
                return "an error"
            elif k.endswith("HYPHENMIN"):
                if not w.has(x[1] + ".rest.number"):
                    return "an error"
                d["left" if k[0] == "L" else "right"] = ("obj", x[1] + ".rest.number")
        return tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in d.items()))

    def got(lf):
        v = lf.val(lf.path.ret)
        if v == NONE:
            return "an error"
        v = v[1]
        if v[0] != "var":
            raise Undecided("table")
        d = dict(v[2])
        out = {}
        for n, x in d.items():
            if n.startswith("left"):
                out["left"] = x
            elif n.startswith("right"):
                out["right"] = x
            elif isinstance(x, tuple) and x[0] == "seq":
                out["patterns"] = x[1]
            elif x == ("default",):
                out["patterns"] = ()
            else:
                raise Undecided("field of a table")
        return tuple(sorted(out.items()))
    return und + check(rep, R, "file", path, {("arg", 1): ("obj", "source")}, want, "lines of a dictionary", "each line of a dictionary says what it is written for", got)


def lineno(rep, P):
    """an error of a dictionary names the line it is on"""
    path = HY + "HyphenationTable::parse"
    if path not in P.fns:
        return 1
    f = P.fns[path]
    und = n = 0

    def off(t, base):
        """constant added to the base"""
        if base(t):
            return 0
        if t[0] == "bin" and t[1] == "Add":
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b[0] == "const" and off(a, base) is not None:
                    return off(a, base) + b[1]
        return None

    def counted(t):
        return t[0] == "fld" and str(t[3]) == "0" and any(x[0] == "call" and last(x[1]) == "enumerate" for x in flow.walk(t))
    given, at = {}, set()
    for p in flow.Flow(P, loop_bound=1).paths(f):
        for e in p.events:
            if e[0] in P.fns and any(P.tstr(P.fns[e[0]].lty(i + 1)) == "usize" for i in range(P.fns[e[0]].argc)) and P.tstr(P.fns[e[0]].ret_ty()).startswith("std::result::Result"):
                for i, a in enumerate(e[1]):
                    if P.tstr(P.fns[e[0]].lty(i + 1)) == "usize":
                        given.setdefault(e[0], set()).add((i + 1, off(a, counted)))
        if p.ret is not None:
            for x in flow.walk(p.ret):
                if x[0] == "agg" and "line" in x[3]:
                    at.add((f.path, off(dict(zip(x[3], x[4]))["line"], counted)))
    for g, how in given.items():
        if len(how) != 1:
            und += 1
            continue
        i, k = how.pop()
        for m, h in P.fns.items():
            if m != g and not m.startswith(g + "::{closure"):
                continue
            base = (lambda t: t == ("arg", i)) if m == g else (lambda t: t[0] == "fld" and t[1] == ("arg", 1) and "line" in str(t[3]))
            for p in flow.Flow(P).paths(h):
                for x in flow.walk(p.ret) if p.ret is not None else ():
                    if x[0] == "agg" and "line" in x[3]:
                        o = off(dict(zip(x[3], x[4]))["line"], base)
                        at.add((m, None if o is None or k is None else o + k))
    for m, k in sorted(at, key=str):
        if k is None:
            und += 1
            continue
        n += 1
        rep.check("line", "an error names its line", k == 1, "%s:%d" % (P.fns[m].file, P.fns[m].line), "the error for the first line of a dictionary names line %d" % k)
    return und + (0 if n else 1)


def pattern(rep, P):
    path = HY + "parse_pattern"
    if path not in P.fns:
        return 1
    R = Reader(P, maxlen=words.MAX + 1, bound=words.MAX + 2, guide=("parse_pattern",),
               calls={"to_digit": lambda lf, a: digit(lf.w, a[0]) if a[1] == 10 else NONE, "is_ascii_digit": lambda lf, a: digit(lf.w, a[0]) != NONE})

    def digit(w, c):
        d = w.ask(("digit", c), (None, 0, 3))
        return NONE if d is None else ("some", d)

    def want(lf):
        n = lf.w.length("p", R.maxlen)
        chars, values = [], [0]
        for i in range(n):
            d = digit(lf.w, chr_(i)[:1] + ("p", i))
            if d == NONE:
                chars.append(("chr", "p", i))
                values.append(0)
            else:
                values[-1] = d[1]
        if not any(values):
            return NONE
        return ("some", tup(seq_(chars), seq_(values)))
    und = check(rep, R, "pattern", path, {("arg", 1): ("word", "p", 0), ("arg", 2): ("obj", "lineno")}, want, "characters and values of a pattern",
                "a pattern gives each gap the digit that stands there")
    path = HY + "parse_hyphenmin"
    if path not in P.fns:
        return und + 1
    R = Reader(P, calls={"::trim": lambda lf, a: ("obj", a[0][1] + ".trim"), "::parse": lambda lf, a: ("some", ("obj", a[0][1] + ".number")) if lf.w.has(a[0][1] + ".number") else NONE})
    return und + check(rep, R, "file", path, {("arg", 1): ("obj", "rest"), ("arg", 2): ("obj", "lineno"), ("arg", 3): ("obj", "directive")},
                       lambda lf: ("some", ("obj", "rest.trim.number")) if lf.w.has("rest.trim.number") else NONE, "number after a directive", "a minimum is the number written")


def breaks(rep, P):
    path = HY + "HyphenationTable::break_points"
    if path not in P.fns:
        return 1
    und = 0
    for inst, n, pats, values, mins in (("values of one pattern", words.MAX, 1, (1, 2), (0, 1, 2, 3)), ("greatest value of two patterns", 2, 2, (1, 2, 3, 4), (1,))):
        def tally(w, part):
            k = len(part)
            gaps = tuple((g, v) for g in range(k + 1) for v in values)
            d = w.ask(("tally", part), (None,) + gaps)
            if d is None:
                return NONE
            return ("some", seq_(d[1] if i == d[0] else 0 for i in range(k + 1)))

        def get(lf, a):
            s = tuple(lf.seq(a[1]))
            return tally(lf.w, s)
        R = Reader(P, maxlen=n, bound=2 * n + 8, guide=("break_points",), calls={"HashMap::<K, V, S, A>::get": get, "HashMap::<K, V, S, A>::contains_key": lambda lf, a: get(lf, a) != NONE})
        R.bytes = True
        R.ints = {"_min": mins}
        R.jobs = 8

        def deny(w, key, d, pats=pats):
            return key[0] == "tally" and d is not None and sum(1 for k, v in w.facts.items() if k[0] == "tally" and v is not None and k != key) >= pats
        R.deny = (deny,)

        def want(lf, n=n):
            w = lf.w
            k = w.length("input", n)
            if k < 2:
                return seq_([])
            low, high = w.ask(("int", "self.left_min"), R.ints["_min"]), w.ask(("int", "self.right_min"), R.ints["_min"])
            if k < low + high:
                return seq_([False] * (k - 1))
            dotted = [("lit", ".")] + [chr_(i) for i in range(k)] + [("lit", ".")]
            score = [0] * (len(dotted) + 1)
            for a in range(len(dotted)):
                for e in range(a + 1, len(dotted) + 1):
                    t = tally(w, tuple(dotted[a:e]))
                    if t != NONE:
                        for i, v in enumerate(t[1][1]):
                            score[a + i] = max(score[a + i], v)
            # the gap between characters i and i + 1 has i + 1 characters of the word before it
            return seq_(score[i + 2] % 2 == 1 and i + 1 >= low and k - (i + 1) >= high for i in range(k - 1))
        und += check(rep, R, "breaks", path, {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0)}, want, inst, "a gap with an odd value, far enough from both ends, is a break",
                     got=lambda lf: seq_(lf.truth(x) for x in lf.seq(lf.val(lf.path.ret))))
    return und


def inwords(rep, P):
    path = PC + "HyphenationConstrainer::compute"
    if path not in P.fns or "HyphenationBreak" not in variants(P, PC + "Constraint"):
        return 1
    flag = lambda s, i: "break %d of %s" % (i, "".join(str(c[2]) for c in s))

    def points(lf, a):
        s = lf.seq(a[1])
        if not all(isinstance(c, tuple) and c[0] == "chr" for c in s):
            raise Undecided("word")
        return seq_(("obj", flag(s, i)) for i in range(len(s) - 1))
    R = Reader(P, maxlen=words.MAX + 1, bound=words.MAX + 2, guide=("HyphenationConstrainer::compute", "HyphenationConstrainer::mark_word"), calls={"HyphenationTable::break_points": points},
               inline_pred=inner(PC[:-2]))

    def want(lf):
        w = lf.w
        n = w.length("input", R.maxlen)
        on = [w.member(name, chr_(i)) for i in range(n)]
        out = [frozenset() for _ in range(n)]
        i = 0
        while i < n:
            if not on[i]:
                i += 1
                continue
            j = i
            while j < n and on[j]:
                j += 1
            s = [chr_(x) for x in range(i, j)]
            for g in range(j - i - 1):
                if w.flag(flag(s, g)):
                    out[i + g] = frozenset(["HyphenationBreak"])
            i = j
        return seq_(("enums", x) for x in out)
    adt = P.adts.get(PC + "HyphenationConstrainer")
    sets = [f[0] for v in adt["variants"] for f in v["fields"] if "Set<" in str(f[1]) or "letter" in f[0]] if adt else []
    if len(sets) != 1:
        return 1
    name = "self." + sets[0]
    und = check(rep, R, "words", path, {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0)}, want, "breaks of the words of a text", "the breaks of each run of letters are marked before their gaps")
    return und + given(rep, P, [("hyphenation_constrainer", "letter_characters")])


def nocross(rep, P):
    path = PT + "nocross_candidates"
    if path not in P.fns:
        return 1
    und = 0
    for pos in (0, 2):
        R = Reader(P, maxlen=2, bound=5, guide=("nocross_candidates",),
                   calls={"find_translations": lambda lf, a: seq_([("obj", "t0"), ("obj", "t1")]) if a[1:] == [("obj", "input"), ("obj", "prev")] else seq_([]),
                          "ResolvedTranslation::length": lambda lf, a: lf.w.ask(("int", a[0][1] + ".length"), range(4)),
                          "hyphenation_break_at": lambda lf, a: lf.w.flag("break at %d" % lf.num(a[1]))})

        def want(lf, pos=pos):
            w = lf.w
            out = []
            for t in ("t0", "t1"):
                k = w.ask(("int", t + ".length"), range(4))
                if not any([w.flag("break at %d" % i) for i in range(pos, pos + max(0, k - 1))]):
                    out.append(("obj", t))
            return seq_(out)
        und += check(rep, R, "nocross", path, {("arg", 1): ("obj", "self"), ("arg", 2): ("obj", "input"), ("arg", 3): ("obj", "prev"), ("arg", 4): pos, ("arg", 5): ("obj", "constraints")},
                     want, "nocross candidates at position %d" % pos, "a nocross rule is a candidate exactly if no break is inside its match")
    return und


def run(rep, L, B):
    rep.parts([file, lineno, pattern, breaks, inwords, nocross], L)


LEVEL = "other"
EXPLANATION = ("The reading of a dictionary is followed on all paths over lines of every kind, the reading of a pattern over characters that are digits or not, the search for breaks over words of unnamed characters with any one or two patterns found "
               "at any place in them, the marking of words over texts of letters and others, and the choice of nocross rules over candidates of any length with breaks anywhere; each result is compared with the specified definition.")
ASSUMPTIONS = ["two lines, patterns of four characters, words of three characters with one pattern and of two with two patterns (thorough: one more); the code treats further ones in the same loops",
               "the number and digit parsers, trimming and maps of the standard library work as documented", "that the constrainer is made exactly for forward tables with a dictionary is C25's affair"]
