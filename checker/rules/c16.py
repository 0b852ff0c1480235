"""C16: the runner of YAML tests runs every test as written and counts its outcome once, in the right column."""
import flow
import seq
from terms import last, short
from rules.c12 import one, where

EXPLANATION = ("Path enumeration of the functions that read YAML test files, run the tests and count the outcomes. The readers are interpreted over all short sequences of keys and values: what a path "
               "has read in which order is matched with the fields of the test, matrix or table it builds. For the verdict every combination of direction, agreement and expected failure is decided; for a "
               "matrix every table and test of each mode; for the summary the predicate behind each number.")
LEVEL = "other"
ASSUMPTIONS = ["libyaml delivers the events of the file in order", "rayon keeps the order of a collected parallel iterator", "modes display and hyphenate are documented as not implemented and left out"]

SCALAR, SEQ, MAP = "5", "6", "8"
READERS = ("scalar", "xfail", "xfail_value", "xfail_mapping_value", "emphasis_spans_value", "u16_value", "pos_values", "cursor_position", "translation_mode_value", "translation_modes",
           "display_table", "table", "table_list", "table_query", "flags", "test", "tests")
EDGES = ("mapping_start", "mapping_end", "sequence_start", "sequence_end", "stream_start", "stream_end", "document_start", "document_end")


def reader(P, name):
    return one(P, "YAMLParser::<'_>::" + name)


def is_parser(n):
    return "YAMLParser" in n


def good_reads(key, v, st):
    """leave out the paths on which something that is read is missing"""
    if v == "-" and key[0] == "discr":
        b = key[1]
        if b[0] == "call" and (is_parser(b[1]) or last(b[1]) in ("unescape", "check", "parse")):
            return True
    return False


def paths(P, f, bound=1, prune=None, inline=None):
    pr = (lambda k, v, st: good_reads(k, v, st) or bool(prune and prune(k, v, st)))
    return [p for p in flow.Flow(P, loop_bound=bound, prune=pr, inline_pred=inline).paths(f) if not p.trunc]


class Reading:
    """what a path reads: calls of the parser's own readers, numbered per kind in order"""

    def __init__(self, p):
        self.names = {}
        self.order = []
        n = {}
        for e in p.events:
            if is_parser(e[0]):
                k = last(e[0])
                if k in EDGES:
                    self.order.append(k)
                    continue
                i = n.get(k, 0)
                n[k] = i + 1
                self.names[e[2]] = ("rd", k, i)
                self.order.append(("rd", k, i))
        self.count = n
        self.p = p

    def canon(self, t):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "fld" and t[2] in ("+", "Ok") and t[1][0] == "call" and is_parser(t[1][1]) and t[1][3] in self.names:
            return self.names[t[1][3]]
        if t and t[0] == "fld" and t[2] == "+" and t[1][0] == "call" and last(t[1][1]) == "unescape":
            return ("unescape",) + tuple(self.canon(a) for a in t[1][2])
        return tuple(self.canon(x) for x in t)

    def conds(self):
        return {self.canon(k): v for k, v in self.p.conds.items()}

    def strings(self, subj):
        """(equal to, different from, anything else asked) of a scalar"""
        eq, ne, other = None, set(), False
        for k, v in self.conds().items():
            if k[0] == "bin" and k[1] in ("Eq", "Ne") and subj in k[2:4] and [x for x in k[2:4] if x[0] == "str"]:
                s = [x for x in k[2:4] if x[0] == "str"][0][1]
                if (v == ("=", 1)) == (k[1] == "Eq"):
                    eq = s
                else:
                    ne.add(s)
            elif subj in list(flow.walk(k)):
                other = True
        return eq, ne, other

    def admits(self, subj, s):
        eq, ne, other = self.strings(subj)
        if other:
            return None
        return (eq is None or eq == s) and s not in ne

    def peeks(self):
        """the kinds of event the path has seen ahead, in order: 'scalar', 'sequence', 'mapping' or 'end'"""
        out = []
        for e in self.p.events:
            if last(e[0]) == "peek":
                t = ("call", e[0], e[1], e[2])
                ks = [(k, v) for k, v in self.p.conds.items() if t in list(flow.walk(k))]
                kind = None
                for k, v in ks:
                    if v in (("=", SCALAR), ("=", SEQ), ("=", MAP)) and k[0] == "discr":
                        kind = {SCALAR: "scalar", SEQ: "sequence", MAP: "mapping"}[v[1]]
                out.append(kind or "end")
        return out


def payload(p):
    """the value of a path that ends well, None if it ends in an error, () if not known"""
    t = p.ret
    if t and t[0] == "agg" and t[2] in ("Ok", "Some"):
        return t[4][0]
    if t and (t[0] in ("resid",) or t[0] == "agg" and t[2] == "Err"):
        return None
    return ()


def fields(t):
    return dict(zip(t[3], t[4])) if t[0] == "agg" else {}


def tag(t):
    return t[2] if t[0] == "agg" else None


# -- verdict -----------------------------------------------------------------
def verdict(rep, P):
    und = n = 0
    f = one(P, "crate::test::Test::check")
    W = where(f)
    fl = lambda x: ("fld", ("arg", 1), None, x)
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        r = p.ret
        if r[0] != "agg":
            und += 1
            continue
        d = [v[1] for k, v in p.conds.items() if k == ("discr", ("arg", 4)) and v[0] == "="]
        eq = [(k, v) for k, v in p.conds.items() if k[0] == "bin" and k[1] in ("Eq", "Ne") and fl("expected") in k[2:4]]
        xf = [v == ("=", 1) for k, v in p.conds.items() if k[0] == "call" and last(k[1]) == "is_failure"]
        if not d or len(eq) != 1 or len(xf) != 1:
            und += 1
            continue
        d, (k, v) = d[0], eq[0]
        out = k[2] if k[3] == fl("expected") else k[3]
        same = (v == ("=", 1)) == (k[1] == "Eq")
        n += 1
        for c in p.conds:
            if c[0] == "call" and last(c[1]) == "is_failure":
                rep.check("verdict", "%s: asks for the direction of the test" % d, c[2] == (fl("xfail"), ("arg", 4)) or c[2][1] == ("agg", "crate::parser::Direction", d, (), ()), W, "whether a failure is expected is asked with " + short(c[2][1]))
        want = {(True, False): "Success", (True, True): "UnexpectedSuccess", (False, True): "ExpectedFailure", (False, False): "Failure"}[(same, xf[0])]
        rep.check("verdict", "%s: %s" % (d, want), r[2] == want, W, "a test %s whose failure is %s counts as %s" % ("that passes" if same else "that fails", "expected" if xf[0] else "not expected", r[2]))
        g = fields(r)
        for a in ("input", "expected"):
            if a in g:
                rep.check("verdict", "%s of a %s" % (a, r[2]), g[a] == fl(a), W, "the %s reported is %s" % (a, short(g[a])))
        if "actual" in g:
            rep.check("verdict", "actual of a %s" % r[2], g["actual"] == out, W, "the output reported is %s" % short(g["actual"]))
        if "direction" in g:
            rep.check("verdict", "direction of a %s" % r[2], g["direction"] == ("arg", 4) or tag(g["direction"]) == d, W, "the direction reported is %s" % short(g["direction"]))
        # what is compared
        call = lambda t, nme: t[0] == "call" and last(t[1]) == nme
        if d == "Forward":
            ok = call(out, "translate") and out[2][0] == ("arg", 3)
            inner = out[2][1] if ok else out
            tr = inner if call(inner, "translate_with_options") else None
            src = tr[2][1] if tr else None
        else:
            tr = out if call(out, "translate_with_options") else None
            src = tr[2][1] if tr else None
            ok = bool(src) and call(src, "translate") and src[2][0] == ("arg", 3)
            src = src[2][1] if ok else src
        known = [t for t in flow.walk(out) if isinstance(t, tuple) and t and t[0] == "call" and last(t[1]) in ("translate", "translate_with_options")]
        if not known:
            und += 1
            continue
        rep.check("verdict", "%s: display table on the braille side" % d, bool(ok), W, "the display table is not applied to the %s" % ("output" if d == "Forward" else "input"))
        rep.check("verdict", "%s: translated with the table" % d, bool(tr) and tr[2][0] == ("arg", 2), W, "the text is not translated with the options of the test")
        if src is not None:
            rep.check("verdict", "%s: the input of the test" % d, src == fl("input"), W, "what is translated is %s" % short(src))
        if tr:
            o = tr[2][2]
            got = {}
            while o[0] == "call" and last(o[1]).startswith("with_"):
                got[last(o[1])] = o[2][1]
                o = o[2][0]
            if o[0] == "call" and last(o[1]) in ("default", "new") or got:
                rep.check("verdict", "%s: modes" % d, got.get("with_mode") == fl("modes"), W, "the translation modes of a test are not used")
                rep.check("verdict", "%s: emphasis" % d, got.get("with_emphasis") == fl("emphasis"), W, "the emphasis of a test is not used")
            else:
                und += 1
    rep.count("verdicts", n)
    f = one(P, "ExpectedFailure::is_failure")
    for p in flow.Flow(P).paths(f):
        v = [x[1] for k, x in p.conds.items() if k == ("discr", ("arg", 1)) and x[0] == "="]
        if not v:
            und += 1
            continue
        v, r = v[0], p.ret
        if v == "Simple":
            ok = r == ("fld", ("arg", 1), "Simple", "0")
            ok = ok or r[0] == "const" and p.conds.get(("fld", ("arg", 1), "Simple", "0")) == ("=", r[1])
        elif v == "Reason":
            ok = r == ("const", 1)
        else:
            ok = r[0] == "call" and last(r[1]) == "contains" and r[2] == (("fld", ("arg", 1), "Direction", "0"), ("arg", 2))
            if not ok and r[0] not in ("const",) and not (r[0] == "un") and not (r[0] == "call" and last(r[1]) == "contains"):
                und += 1
                continue
            if not ok and r[0] == "const":
                k = [x for k, x in p.conds.items() if k[0] == "call" and last(k[1]) == "contains" and k[2] == (("fld", ("arg", 1), "Direction", "0"), ("arg", 2))]
                ok = bool(k) and k[0] == ("=", r[1])
        rep.check("verdict", "expected failure: " + v, ok, where(f), "an expected failure given as %s answers %s" % (v, short(r)))
    f = one(P, "crate::test::Test::reverse")
    for p in flow.Flow(P).paths(f):
        g = fields(p.ret)
        if not g:
            und += 1
        for a, t in g.items():
            b = {"input": "expected", "expected": "input"}.get(a, a)
            rep.check("verdict", "reversed test: " + a, t == ("fld", ("arg", 1), None, b), where(f), "the %s of a reversed test is %s" % (a, short(t)))
    return und + (not n)


# -- what is read --------------------------------------------------------------
def words(rep, P):
    """strings and what they stand for"""
    und = 0

    def table(name, subj, cases, what, value):
        nonlocal und
        f = reader(P, name)
        n = 0
        ps = [(Reading(p), p) for p in paths(P, f)]
        for s, want in cases.items():
            for r, p in ps:
                ad = r.admits(subj, s)
                if ad is None:
                    und += 1
                    continue
                if not ad:
                    continue
                v = payload(p)
                if v == ():
                    und += 1
                    continue
                if subj[2] == 1 and v is None and r.strings(("rd", "scalar", 0))[0] != "testmode":
                    # another key than testmode
                    continue
                n += 1
                got = value(r, v) if v is not None else "an error"
                rep.check("words", "%s %s" % (what, s), got == want, where(f), "%s %r is read as %s instead of %s" % (what, s, got, want))
        rep.count(what + " values", n)
        if not n:
            und += 1

    table("flags", ("rd", "scalar", 1), {"forward": "Forward", "backward": "Backward", "bothDirections": "BothDirections", "display": "Display", "hyphenate": "Hyphenate",
                                         "hyphenateBraille": "HyphenateBraille", "vp": "an error"}, "test mode", lambda r, v: tag(v))
    table("flags", ("rd", "scalar", 0), {"vp": "an error"}, "flag", lambda r, v: tag(v))
    table("translation_mode_value", ("rd", "scalar", 0), {"noContractions": "NoContractions", "compbrlAtCursor": "CompbrlAtCursor", "dotsIO": "DotsIo", "compbrlLeftCursor": "CompbrlLeftCursor", "ucBrl": "UcBrl",
                                                          "noUndefined": "NoUndefined", "partialTrans": "PartialTrans", "vp": "an error"}, "mode", lambda r, v: tag(v))

    def xf(r, v):
        if tag(v) == "Simple":
            return {("const", 1): "expected", ("const", 0): "not expected"}.get(v[4][0], "?")
        if tag(v) == "Reason":
            return "reason" if r.canon(v[4][0]) == ("rd", "scalar", 0) else "another text"
        return str(tag(v))
    table("xfail_value", ("rd", "scalar", 0), {"off": "not expected", "false": "not expected", "on": "expected", "true": "expected", "vp": "reason"}, "xfail", xf)
    # the mapping of directions
    f = reader(P, "xfail_mapping_value")
    n = 0
    for p in paths(P, f, bound=2):
        v = payload(p)
        r = Reading(p)
        if v is None:
            ks = [r.strings(("rd", "scalar", i))[0] for i in range(r.count.get("scalar", 0))]
            if ks and set(ks) <= {"forward", "backward"}:
                rep.bad("words", "xfail direction " + ks[-1], where(f), "the direction %s is not accepted" % ks[-1])
            continue
        want = set()
        ok = True
        dead = False
        for i in range(r.count.get("scalar", 0)):
            s = r.strings(("rd", "scalar", i))[0]
            if s is None:
                ok = False
                break
            x = ("rd", "xfail_value", i)
            c = r.conds()
            kind = [y[1] for k, y in c.items() if k == ("discr", x) and y[0] == "="]
            non = [y[1] for k, y in c.items() if k == ("discr", x) and y[0] == "!="]
            b = [y for k, y in c.items() if k == ("fld", x, "Simple", "0")]
            if s not in ("forward", "backward"):
                rep.bad("words", "xfail direction", where(f), "%r is read as a direction" % s)
                continue
            if kind and kind[0] == "Simple" and b:
                if b[0] == ("=", 1):
                    want.add(s)
            elif kind and kind[0] == "Reason":
                want.add(s)
            elif kind and kind[0] == "Direction":
                dead = True         # not a value xfail_value has
            elif non and "Simple" in non[0]:
                if "Reason" not in non[0]:
                    want.add(s)
            else:
                ok = False
        got = inserted(v)
        if dead:
            continue
        if not ok or got is None:
            und += 1
            continue
        n += 1
        rep.check("words", "xfail directions", {g.lower() for g in got} == want, where(f), "a failure written as expected for %s is expected for %s" % (" and ".join(sorted(want)) or "no direction", " and ".join(sorted(got)) or "none"))
    rep.count("xfail mappings", n)
    f = reader(P, "xfail")
    n2 = 0
    for p in paths(P, f):
        v = payload(p)
        r = Reading(p)
        pk = r.peeks()
        if v == () and p.ret[0] == "call" and last(p.ret[1]) == "xfail_value":
            v = p.ret
        elif v == ():
            und += 1
            continue
        if v is None:
            rep.check("words", "xfail is read", not pk or pk[0] == "end" or pk[0] == "sequence", where(f), "an xfail that is a %s is refused" % pk[0])
            continue
        n2 += 1
        if pk[:1] == ["mapping"]:
            rep.check("words", "xfail mapping", tag(v) == "Direction" and r.canon(v[4][0]) == ("rd", "xfail_mapping_value", 0), where(f), "an xfail mapping is read as " + short(v))
        elif pk[:1] == ["scalar"]:
            rep.check("words", "xfail scalar", v[0] == "call" or r.canon(v) == ("rd", "xfail_value", 0), where(f), "an xfail value is read as " + short(v))
        else:
            und += 1
    return und + (not n) + (not n2)


def inserted(v):
    """names of the variants put into an enum set"""
    if v[0] == "set":
        out = set()
        for x in v[1]:
            if isinstance(x, tuple):
                if x[0] != "agg":
                    return None
                x = x[2]
            out.add(x)
        return out
    return None


def run_of(t, r, n, total):
    """a number on a path that reads a mask: position of a character, or its length"""
    if t[0] == "const":
        return t[1]
    if t[0] == "bin" and t[1] in ("Add", "Sub"):
        a, b = run_of(t[2], r, n, total), run_of(t[3], r, n, total)
        if a is None or b is None:
            return None
        return a + b if t[1] == "Add" else a - b
    if t[0] == "call" and last(t[1]) in ("count",):
        b, ops = seq.stages(t[2][0])
        if r.canon(b) == ("rd", "scalar", 1) and [o for o, _ in ops] == ["chars"]:
            return total
        return None
    for i, e in enumerate(n):
        el = ("fld", ("fld", e, "Some", "0"), None, "0")
        el2 = ("fld", ("fld", e, "+", "0"), None, "0")
        if t in (el, el2):
            return i
    return None


def emphasis(rep, P):
    """a mask of + and other characters becomes the spans of its runs"""
    f = reader(P, "emphasis_spans_value")
    und = n = 0
    LEN = 5

    def once(k, v, st):
        # one key only
        pk = sum(1 for e in st.events if last(e[0]) == "peek")
        return pk > 1 and v == SCALAR
    for p in paths(P, f, bound=LEN, prune=once):
        v = payload(p)
        r = Reading(p)
        if v in (None, ()) or r.count.get("scalar", 0) != 2:
            und += v == ()
            continue
        nexts = [("call", e[0], e[1], e[2]) for e in p.events if last(e[0]) == "next"]
        if nexts and [o for o, _ in seq.stages(nexts[0][2][0])[1]] == ["char_indices"]:
            rep.bad("emphasis", "positions", where(f), "the spans of a mask are counted in bytes")
            continue
        took = []
        bad = False
        for e in nexts:
            d = [x for k, x in p.conds.items() if k == ("discr", e)]
            if d == [("=", "-")]:
                break
            ch = None
            for k, x in p.conds.items():
                if k[0] == "bin" and k[1] in ("Eq", "Ne") and ("char", "+") in k[2:4] and e in list(flow.walk(k)):
                    ch = (x == ("=", 1)) == (k[1] == "Eq")
                elif k[0] == "fld" and k[1] == ("fld", e, "+", "0") and k[3] == "1" and x in (("=", 43), ("=", "+")):
                    ch = True
                elif k[0] == "fld" and k[1] == ("fld", e, "+", "0") and k[3] == "1" and x[0] == "!=":
                    ch = False
            if ch is None:
                bad = True
                break
            took.append(ch)
        if bad or not nexts:
            und += 1
            continue
        want = []
        i = 0
        while i < len(took):
            if took[i]:
                j = i
                while j < len(took) and took[j]:
                    j += 1
                want.append((i, j))
                i = j
            else:
                i += 1
        ev = seq.events(p)
        try:
            its = seq.items(v, ev)
        except seq.Unknown:
            und += 1
            continue
        got = []
        for kind, t in its:
            if kind != "one" or t[0] != "call" or last(t[1]) != "new" or len(t[2]) != 2:
                got = None
                break
            rg = t[2][1]
            if rg[0] != "agg" or len(rg[4]) != 2:
                got = None
                break
            a, b = (run_of(x, r, nexts, len(took)) for x in rg[4])
            if a is None or b is None or "RangeInclusive" in rg[1]:
                got = None
                break
            got.append((a, b))
            rep.check("emphasis", "class of a span", r.canon(t[2][0]) == ("rd", "scalar", 0), where(f), "the class of a span is %s" % short(t[2][0]))
        if got is None:
            und += 1
            continue
        n += 1
        m = "".join("+" if x else "-" for x in took)
        rep.check("emphasis", "mask %s" % m, got == want, where(f), "the mask %r is read as the spans %s instead of %s" % (m, got, want))
    rep.count("emphasis masks", n)
    return und + (not n)


FIELDS = {"xfail": ("xfail", "xfail"), "typeform": ("emphasis", "emphasis_spans_value"), "expected_typeform": ("expected_emphasis", "emphasis_spans_value"), "inputPos": ("input_pos", "pos_values"),
          "outputPos": ("output_pos", "pos_values"), "cursorPos": ("cursor_pos", "cursor_position"), "mode": ("modes", "translation_modes"), "maxOutputLength": ("max_output_length", "u16_value"),
          "realInputLength": ("real_input_length", "u16_value")}
TEST = ("input", "expected", "xfail", "emphasis", "expected_emphasis", "input_pos", "output_pos", "cursor_pos", "modes", "max_output_length", "real_input_length")


def test(rep, P):
    """input, expected output and the options of a test reach its fields"""
    f = reader(P, "test")
    W = where(f)
    und = n = 0
    inl = lambda g: g.path.endswith("crate::test::Test::new") or g.path == "crate::test::Test::new"
    seen = set()
    for p in paths(P, f, bound=2, inline=inl):
        v = payload(p)
        r = Reading(p)
        if v == ():
            und += 1
            continue
        c = r.conds()
        ns = r.count.get("scalar", 0)
        # keys: the scalars that are compared with a word
        keys = []
        text = []
        for i in range(ns):
            eq, ne, other = r.strings(("rd", "scalar", i))
            (keys if eq or ne else text).append((i, eq))
        if v is None:
            for i, k in keys:
                if k is None and i == keys[-1][0]:
                    break
            else:
                if keys and keys[-1][1] in FIELDS:
                    rep.bad("test", "key " + keys[-1][1], W, "the key %s is refused" % keys[-1][1])
            continue
        if [k for _, k in keys if k is None]:
            rep.bad("test", "unknown key", W, "an unknown key is passed over without a message")
            continue
        g = fields(v)
        if tag(v) != "Test" or set(g) != set(TEST):
            und += 1
            continue
        t = [i for i, _ in text]
        pk = r.peeks()
        three = pk[:1] == ["scalar"]
        if len(t) != (3 if three else 2):
            und += 1
            continue
        n += 1
        want = {"input": t[-2], "expected": t[-1]}
        for a, i in want.items():
            x = r.canon(g[a])
            raw = ("rd", "scalar", i)
            if x[0] == "unescape":
                rep.check("test", "%s, %d texts" % (a, len(t)), x[1] == raw, W, "the %s of a test with %d texts is text %s" % (a, len(t), x[1][2] + 1 if x[1][0] == "rd" else "?"))
                rep.check("test", "%s escaped" % a, tag(x[2]) == "Default", W, "escapes in a test are read for " + str(tag(x[2])))
            elif x[0] == "rd":
                rep.bad("test", "%s, %d texts" % (a, len(t)), W, "the %s of a test is not unescaped" % a)
            else:
                und += 1
        ks = [k for _, k in keys]
        seen |= set(ks)
        lastkey = {}
        cnt = {}
        for k in ks:
            if k not in FIELDS:
                rep.bad("test", "key " + k, W, "the key %s means something else than it says" % k)
                continue
            fld, rd = FIELDS[k]
            lastkey[fld] = ("rd", rd, cnt.get(rd, 0))
            cnt[rd] = cnt.get(rd, 0) + 1
        if any(r.count.get(rd, 0) != m for rd, m in cnt.items()):
            rep.bad("test", "keys %s" % " ".join(sorted(set(ks))), W, "the value of one of the keys %s is read as something else" % ", ".join(sorted(set(ks))))
            continue
        for a in TEST[2:]:
            x = r.canon(g[a])
            if x[0] == "agg" and x[2] == "Some":
                x = x[4][0]
            if a in lastkey:
                rep.check("test", "%s of a test" % a, x == lastkey[a], W, "after the keys %s the %s of a test is %s" % (", ".join(ks), a, short(g[a])))
            else:
                empty = (x[0] == "call" and last(x[1]) in ("new", "empty", "default", "none") or x[0] == "agg" and x[2] == "None" or x == ("set", ()) or x == ("set", frozenset())
                         or x[0] == "agg" and x[2] == "Simple" and x[4][0] == ("const", 0) or x[0] in ("set", "array") and not x[1])
                rep.check("test", "%s without its key" % a, empty, W, "without its key the %s of a test is %s (keys: %s)" % (a, short(g[a]), ", ".join(ks) or "none"))
    rep.check("test", "all keys are known", not n or set(FIELDS) <= seen, W, "not accepted: " + ", ".join(sorted(set(FIELDS) - seen)))
    rep.count("tests read", n)
    f = one(P, "crate::test::Test::new")
    for p in flow.Flow(P).paths(f):
        g = fields(p.ret)
        for i, a in enumerate(TEST):
            if a in g:
                rep.check("test", "field " + a, g[a] == ("arg", i + 1), where(f), "the %s of a test is given as %s" % (a, short(g[a])))
    return und + (not n)


def lists(rep, P):
    """everything of a list is read, in order"""
    und = n = 0
    for name, rd in (("table_list", "scalar"), ("pos_values", "u16_value"), ("tests", "test"), ("translation_modes", "translation_mode_value")):
        f = reader(P, name)
        for p in paths(P, f, bound=2):
            v = payload(p)
            r = Reading(p)
            if v in ((), None):
                und += v == ()
                continue
            if v[0] == "set":
                got = [r.canon(x) if isinstance(x, tuple) else x for x in v[1]]
                got = sorted(got, key=str)
            else:
                try:
                    got = [r.canon(x) for k, x in seq.items(v, seq.events(p)) if k == "one"]
                except seq.Unknown:
                    m = insertions(v, seq.events(p))
                    if m is None:
                        und += 1
                        continue
                    got = [r.canon(x) for x in m]
            want = [("rd", rd, i) for i in range(r.count.get(rd, 0))]
            if [x for x in got if x[0] != "rd"]:
                und += 1
                continue
            n += 1
            rep.check("lists", "%s of %d" % (name, len(want)), got == want, where(f), "of a list of %d the elements %s are kept" % (len(want), [x[2] + 1 for x in got]))
            pk = r.peeks()
            kind = "sequence" if name == "tests" else "scalar"
            rep.check("lists", "%s is read to its end" % name, not pk or pk[-1] != kind, where(f), "a list ends before its last element")
    f = reader(P, "table_query")
    for p in paths(P, f, bound=2):
        v = payload(p)
        r = Reading(p)
        if v in ((), None):
            und += v == ()
            continue
        m = insertions(v, seq.events(p), 2)
        if m is None:
            und += 1
            continue
        n += 1
        got = [tuple(r.canon(x) for x in a) for a in m]
        want = [(("rd", "scalar", 2 * i), ("rd", "scalar", 2 * i + 1)) for i in range(r.count.get("scalar", 0) // 2)]
        rep.check("lists", "query of %d" % len(want), got == want, where(f), "the keys and values of a query are not read as they are written")
    f = reader(P, "cursor_position")
    for p in paths(P, f):
        v = payload(p)
        r = Reading(p)
        if v in ((), None):
            und += v == ()
            continue
        n += 1
        got = [r.canon(x) for x in v[4]] if v[0] == "agg" else None
        if got is None:
            und += 1
            continue
        k = 2 if tag(v) == "Tuple" else 1
        rep.check("lists", "cursor position", got == [("rd", "u16_value", i) for i in range(k)], where(f), "the numbers of a cursor position are not read in order")
    f = reader(P, "u16_value")
    for p in paths(P, f):
        v = payload(p)
        r = Reading(p)
        if v in ((), None):
            und += v == ()
            continue
        v = r.canon(v)
        n += 1
        rep.check("lists", "number", v[0] == "fld" and v[1][0] == "call" and last(v[1][1]) in ("parse", "from_str") and v[1][2][0] == ("rd", "scalar", 0), where(f), "a number is read as " + short(v))
    # the primitives take what they are named after
    for name, kind in (("scalar", SCALAR), ("mapping_start", MAP), ("mapping_end", "9"), ("sequence_start", SEQ), ("sequence_end", "7")):
        f = reader(P, name)
        for p in flow.Flow(P).paths(f):
            v = payload(p)
            nx = [e for e in p.events if last(e[0]) == "next"]
            ds = [x for k, x in p.conds.items() if k[0] == "discr" and k[1][0] == "fld" and k[1][1][0] == "fld" and x[0] == "="]
            if v == () or len(nx) != 1:
                und += 1
                continue
            if v is not None:
                n += 1
                rep.check("lists", "%s is what is taken" % name, ds == [("=", kind)], where(f), "%s takes another event" % name)
                if name == "scalar":
                    rep.check("lists", "value of a scalar", v[0] == "fld" and v[3] == "value", where(f), "the value of a scalar is " + short(v))
            else:
                rep.check("lists", "%s is not refused" % name, ds != [("=", kind)], where(f), "%s is refused" % name)
    rep.count("lists read", n)
    return und + (not n)


def insertions(t, ev, n=1):
    out = []
    while t[0] == "mut":
        a = ev[t[1]][1]
        if last(t[2]) == "insert":
            out.append(a[1] if n == 1 else a[1:1 + n])
        else:
            return None
        t = t[3]
    return out[::-1] if t[0] == "call" and last(t[1]) in ("new", "empty", "default") or t[0] == "set" else None


# -- tables --------------------------------------------------------------------
def tables(rep, P):
    und = n = 0
    for name in ("table", "display_table"):
        f = reader(P, name)
        for p in paths(P, f):
            v = payload(p)
            r = Reading(p)
            pk = r.peeks()
            if v == () or not pk:
                und += 1
                continue
            kind = pk[0]
            style = [x for k, x in p.conds.items() if k[0] == "discr" and k[1][0] == "fld" and k[1][3] == "0" and k[1][1][0] == "fld" and k[1][1][3] == "style"]
            known = [x for k, x in p.conds.items() if k[0] == "discr" and k[1][0] == "fld" and k[1][3] == "style"]
            mixed = kind == "scalar" and known != [("=", "-")] and (not style or style[0][0] == "!=" and not {"4", "5"} <= set(style[0][1]))
            inline = bool(style) and style[0] in (("=", "4"), ("=", "5"))
            W = where(f)
            if v is None:
                rep.check("tables", "%s: %s is read" % (name, kind), kind == "end" or kind == "mapping" and name == "display_table", W, "a %s given as %s is refused" % (name.replace("_", " "), kind))
                continue
            n += 1
            x = r.canon(v[4][0]) if v[0] == "agg" and v[4] else None
            c = r.conds()
            if kind == "sequence":
                rep.check("tables", "%s: list" % name, tag(v) == "List" and x == ("rd", "table_list", 0), W, "a list of tables is read as " + short(v))
            elif mixed:
                rep.bad("tables", "%s: blocks" % name, W, "a %s given in a literal or folded block of the file is not told from the name of a file" % name.replace("_", " "))
            elif kind == "scalar" and inline:
                rep.check("tables", "%s: inline" % name, tag(v) == "Inline" and x == ("rd", "scalar", 0), W, "a table given in a block of the file is read as " + short(v))
            elif kind == "scalar":
                comma = [y for k, y in c.items() if k[0] == "call" and last(k[1]) == "contains" and k[2][1] in (("char", ","), ("str", ","))]
                if tag(v) == "List":
                    b, ops = seq.stages(v[4][0])
                    while b[0] == "call" and last(b[1]) == "map":
                        b = b[2][0]
                    ok = b[0] == "call" and last(b[1]) == "split" and r.canon(b[2][0]) == ("rd", "scalar", 0) and comma == [("=", 1)]
                    odd = [o for o, _ in ops if o not in ("map",)]
                    if set(odd) & {"take", "skip", "filter", "rev", "step_by", "take_while", "skip_while", "dedup"}:
                        rep.check("tables", "%s: list with commas" % name, False, W, "a list with commas goes through %s" % odd[0])
                        continue
                    if odd:
                        und += 1
                        continue
                    rep.check("tables", "%s: list with commas" % name, ok, W, "a file name without comma is read as a list of tables")
                elif comma == [("=", 1)]:
                    rep.bad("tables", "%s: list with commas" % name, W, "a list with commas is read as one table")
                else:
                    rep.check("tables", "%s: file" % name, tag(v) == "Simple" and x == ("rd", "scalar", 0), W, "the name of a table is read as " + short(v))
            elif kind == "mapping":
                has = [y for k, y in c.items() if k[0] == "call" and last(k[1]) in ("contains_key",) and k[2][1] == ("str", "__assert-match")]
                has += [("=", 1 if y == ("=", "+") else 0) for k, y in c.items() if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) in ("get", "remove") and k[1][2][1] == ("str", "__assert-match")]
                if not has:
                    und += 1
                elif has[0] == ("=", 1):
                    g = [y for y in flow.walk(v) if isinstance(y, tuple) and y and y[0] == "call" and last(y[1]) in ("get", "remove", "index")]
                    rep.check("tables", "query with its answer", tag(v) == "Simple" and bool(g) and g[0][2][1] == ("str", "__assert-match"), W, "a query that names its answer is read as " + short(v))
                else:
                    rep.check("tables", "query", tag(v) == "Query" and x == ("rd", "table_query", 0), W, "a query is read as " + short(v))
            else:
                und += 1
    for name, field, comp in (("translation_table", ("arg", 2), "TranslationPipeline::compile"), ("display_table", ("fld", ("arg", 1), None, "display"), "DisplayTable::compile")):
        f = one(P, "TestMatrix::<'a>::" + name)
        W = where(f)
        dirarg = ("arg", 3) if name == "translation_table" else ("arg", 2)
        for p in flow.Flow(P, loop_bound=2).paths(f):
            if p.trunc or p.div:
                continue
            subj = field
            if name == "display_table":
                d = p.conds.get(("discr", field))
                if d == ("=", "-"):
                    kind = "none"
                else:
                    subj = ("fld", field, "Some", "0")
            ks = [x[1] for k, x in p.conds.items() if k[0] == "discr" and x[0] == "=" and x[1] in ("Simple", "List", "Inline", "Query")]
            if ks:
                k = [k for k, x in p.conds.items() if k[0] == "discr" and x[0] == "=" and x[1] in ("Simple", "List", "Inline", "Query")][0]
                subj, kind = k[1], ks[0]
            elif not (name == "display_table" and p.conds.get(("discr", field)) == ("=", "-")):
                und += 1
                continue
            comps = [e for e in p.events if e[0].endswith(comp)]
            failing = [k for k, x in p.conds.items() if x == ("=", "-") and k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) in ("table_expanded", "table", "expand_includes", "compile")]
            if failing:
                ok = p.ret[0] == "agg" and p.ret[2] == "Err" or p.ret[0] in ("resid", "maperr", "call")
                rep.check("tables", "%s: errors of a %s table are reported" % (name, kind), ok, W, "an error in a %s table is not reported" % kind)
                continue
            if kind == "Query":
                rep.check("tables", "queries are refused", p.ret[0] == "agg" and p.ret[2] == "Err", W, "a query for a table is run with " + short(p.ret))
                continue
            if len(comps) != 1:
                und += 1
                continue
            n += 1
            a = comps[0][1]
            rep.check("tables", "%s: direction" % name, a[1] == dirarg, W, "a table is compiled for " + short(a[1]))
            pay = ("fld", subj, kind, "0")
            src = a[0]
            call = lambda t, nme: t[0] == "fld" and t[1][0] == "call" and last(t[1][1]) == nme
            if kind == "Simple":
                rep.check("tables", "%s: file" % name, call(src, "table_expanded") and src[1][2][0] == pay, W, "the rules of a table file are " + short(src))
            elif kind == "Inline":
                ok = call(src, "expand_includes") and call(src[1][2][0], "table") and src[1][2][0][1][2][0] == pay
                if not ok and call(src, "table"):
                    rep.bad("tables", "%s: inline" % name, W, "what an inline table includes is not read")
                else:
                    rep.check("tables", "%s: inline" % name, ok, W, "the rules of an inline table are " + short(src))
            elif kind == "List":
                took = sum(1 for k, x in p.conds.items() if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) == "next" and x == ("=", "+"))
                if call(src, "table_expanded") and took > 1:
                    rep.bad("tables", "%s: list of %d" % (name, took), W, "of a list of tables only the last is used")
                    continue
                try:
                    its = seq.items(src, seq.events(p))
                except seq.Unknown:
                    und += took > 1
                    continue
                nexts = [("call", e[0], e[1], e[2]) for e in p.events if last(e[0]) == "next"]
                ok = len(its) == took
                for (k, t), nx in zip(its, nexts):
                    ok = ok and k == "all" and call(t, "table_expanded") and t[1][2][0] == ("fld", nx, "+", "0") or ok and k == "all" and call(t, "table_expanded") and t[1][2][0] == ("fld", nx, "Some", "0")
                if nexts:
                    b, ops = seq.stages(nexts[0][2][0])
                    rep.check("tables", "%s: the files of the list" % name, b == pay and not ops, W, "the list of tables is " + short(nexts[0][2][0]))
                rep.check("tables", "%s: list of %d" % (name, took), ok, W, "of a list of %d tables the rules of %d are used, or in another order" % (took, len(its)))
            else:
                empty = src[0] in ("array", "tuple") and not src[1] or src[0] == "call" and last(src[1]) in ("new", "default", "empty", "into_vec") or src == ("tuple", ())
                rep.check("tables", "no display table", empty, W, "without a display table the rules of %s are used" % short(src))
    rep.count("tables of tests", n)
    return und + (not n)


# -- the matrix ----------------------------------------------------------------
def chainof(t, ev):
    """what is collected in a vector of results: the sequences it was extended with"""
    out = []
    while t[0] == "mut":
        if last(t[2]) in ("extend", "append"):
            out.append(ev[t[1]][1][1])
        else:
            return None
        t = t[3]
    return out[::-1] if t[0] == "call" and last(t[1]) in ("new", "with_capacity", "default") else None


def matrix(rep, P):
    f = one(P, "TestMatrix::<'a>::check")
    W = where(f)
    und = n = 0
    me = lambda x: ("fld", ("arg", 1), None, x)

    def fine(k, v, st):
        return v == "-" and k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) in ("translation_table", "display_table")
    plans = {"Forward": ["Forward"], "Backward": ["Backward"], "BothDirections": ["Forward", "Backward"]}
    for p in flow.Flow(P, loop_bound=2, prune=fine).paths(f):
        if p.trunc or p.div:
            continue
        m = [x[1] for k, x in p.conds.items() if k == ("discr", me("mode")) and x[0] == "="]
        if not m:
            continue
        m = m[0]
        if m not in plans:
            continue
        v = payload(p)
        ch = chainof(v, seq.events(p)) if v else None
        if ch is None:
            und += 1
            continue
        # the tables gone through, in order
        ev = p.events
        nexts = [("call", e[0], e[1], e[2]) for e in ev if last(e[0]) == "next"]
        loops = []
        for x in nexts:
            src = x[2][0]
            sb, so = seq.stages(src)
            if sb == me("tables") and not so:
                loops.append([])
            elif sb == me("tables") and [o for o, _ in so if o in ("take", "skip", "step_by", "filter", "rev", "take_while", "skip_while")]:
                rep.bad("matrix", "%s: every table" % m, W, "the tests are not run with every table in turn")
                loops.append([])
            elif not loops:
                und += 1
            if p.conds.get(("discr", x)) == ("=", "+") and loops:
                loops[-1].append(x)
        want = []
        if len(loops) > len(plans[m]):
            rep.bad("matrix", m, W, "the tables are gone through %d times in mode %s" % (len(loops), m))
            continue
        ended = len([x for x in nexts if p.conds.get(("discr", x)) == ("=", "-")])
        if ended != len(loops):
            und += 1
            continue
        if len(loops) < len(plans[m]):
            rep.bad("matrix", m, W, "in mode %s the tables are not gone through for every direction" % m)
            continue
        for d, l in zip(plans[m], loops):
            want += [(d, x) for x in l]
        n += 1
        got = []
        ok = True
        for t in ch:
            b, ops = stages(t)
            if b != me("tests") or not ops or [o for o, _ in ops if o != "map"]:
                if b == me("tests") and [o for o, _ in ops if o in ("filter", "skip", "take", "step_by", "skip_while", "take_while", "filter_map")]:
                    rep.bad("matrix", "%s: every test" % m, W, "some of the tests are left out")
                ok = False
                break
            x, rev = ("arg", 2), False
            for _, a in ops:
                rs = seq.apply(P, a[0], [x])
                if len(rs) != 1 or rs[0][1][0] != "call":
                    ok = False
                    break
                x = rs[0][1]
            if not ok or last(x[1]) != "check":
                ok = False
                break
            t = x[2][0]
            while t[0] == "call" and last(t[1]) == "reverse":
                t, rev = t[2][0], not rev
            if t != ("arg", 2):
                ok = False
                break
            rs = [(0, x)]
            a = rs[0][1][2]
            got.append((a[1], a[2], a[3], rev))
        if not ok:
            und += 1
            continue
        if len(got) != len(want):
            rep.bad("matrix", m, W, "with %s tables the tests are run %d instead of %d times in mode %s" % (" and ".join(str(len(l)) for l in loops), len(got), len(want), m))
            continue
        for (tt, dt, d, rev), (wd, x) in zip(got, want):
            el = (("fld", x, "+", "0"), ("fld", x, "Some", "0"))
            okt = tt[0] == "fld" and tt[1][0] == "call" and last(tt[1][1]) == "translation_table"
            okd = dt[0] == "fld" and dt[1][0] == "call" and last(dt[1][1]) == "display_table"
            if not okt or not okd:
                und += 1
                continue
            rep.check("matrix", "%s: direction" % m, tag(d) == wd, W, "in mode %s a test is run %s instead of %s" % (m, tag(d), wd))
            rep.check("matrix", "%s: table for the direction" % m, tag(tt[1][2][2]) == wd, W, "in mode %s a test is run %s with a table for %s" % (m, wd, tag(tt[1][2][2])))
            rep.check("matrix", "%s: the table" % m, tt[1][2][1] in el, W, "in mode %s a test is run with another table than the one it is the turn of" % m)
            rep.check("matrix", "%s: display table for the direction" % m, tag(dt[1][2][1]) == wd, W, "in mode %s a test is run %s with a display table for %s" % (m, wd, tag(dt[1][2][1])))
            rep.check("matrix", "%s: %s tests" % (m, wd), rev == (m == "BothDirections" and wd == "Backward"), W, "in mode %s the tests are %s for the direction %s" % (m, "reversed" if rev else "not reversed", wd))
    rep.count("runs of a matrix", n)
    # errors of a table
    for p in flow.Flow(P).paths(f):
        bad = [k for k, x in p.conds.items() if x == ("=", "-") and k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) in ("translation_table", "display_table")]
        if bad and not p.trunc:
            rep.check("matrix", "errors of a table", payload(p) is None or p.ret[0] == "resid", W, "a table that cannot be used is passed over")
    f = one(P, "TestMatrix::<'a>::new")
    for p in flow.Flow(P).paths(f):
        g = fields(p.ret)
        for i, a in enumerate(("display", "tables", "mode", "tests")):
            if a in g:
                rep.check("matrix", "field " + a, g[a] == ("arg", i + 1), where(f), "the %s of a matrix is given as %s" % (a, short(g[a])))
    return und + (not n)


def stages(t):
    """like seq.stages, for the iterators of rayon as well"""
    ops = []
    while True:
        b, o = seq.stages(t)
        ops = o + ops
        if b[0] == "call" and last(b[1]) in ("par_iter", "into_par_iter", "par_bridge") and b[2]:
            t = b[2][0]
            continue
        return b, ops


# -- the file ------------------------------------------------------------------
def vector(t, ev):
    """elements pushed into a vector that may have been cleared"""
    out = []
    while t[0] == "mut":
        a = ev[t[1]][1]
        n = last(t[2])
        if n == "push":
            out.append(a[1])
        elif n in ("clear",):
            return out[::-1]
        elif n == "extend":
            b = a[1]
            if b[0] == "array":
                out += list(b[1])[::-1]
            else:
                return None
        else:
            return None
        t = t[3]
    if t[0] == "array":
        return list(t[1]) + out[::-1]
    if t[0] == "call" and last(t[1]) in ("from", "into_vec", "box_assume_init_into_vec_unsafe"):
        a = [x for x in flow.walk(t) if isinstance(x, tuple) and x and x[0] == "array"]
        return list(a[0][1]) + out[::-1] if a else None
    return out[::-1] if t[0] == "call" and last(t[1]) in ("new", "with_capacity", "default") else None


def yaml(rep, P):
    for b in (4, 3, 2):
        try:
            return sequences(rep, P, b)
        except flow.FlowLimit:
            if b == 2:
                raise


def sequences(rep, P, bound):
    f = reader(P, "yaml")
    W = where(f)
    und = n = 0
    inl = lambda g: g.path.endswith("TestMatrix::<'a>::new")
    checked = set()
    for p in paths(P, f, bound=bound, inline=inl):
        v = payload(p)
        r = Reading(p)
        keys = []
        for i in range(r.count.get("scalar", 0)):
            keys.append(r.strings(("rd", "scalar", i))[0])
        if v == ():
            und += 1
            continue
        if v is None:
            if keys and keys[-1] in ("display", "table", "flags", "tests"):
                rep.bad("file", "key " + keys[-1], W, "the key %s is refused" % keys[-1])
            continue
        if None in keys:
            rep.bad("file", "unknown key", W, "an unknown key is passed over without a message")
            continue
        disp, tabs, mode, prev = None, [], None, False
        cnt = {}
        want = []

        def rd(k):
            cnt[k] = cnt.get(k, 0) + 1
            return ("rd", k, cnt[k] - 1)
        for k in keys:
            if k == "display":
                disp = rd("display_table")
            elif k == "table":
                x = rd("table")
                tabs = tabs + [x] if prev else [x]
            elif k == "flags":
                mode = rd("flags")
            elif k == "tests":
                want.append((disp, list(tabs), mode, rd("tests")))
            else:
                rep.bad("file", "key " + k, W, "a key %s is read" % k)
            prev = k == "table"
        if any(r.count.get(k, 0) != c for k, c in cnt.items()):
            rep.bad("file", "keys " + " ".join(sorted(set(keys))), W, "after the keys %s not all values are read" % ", ".join(keys))
            continue
        ev = seq.events(p)
        got = []
        runs = [e for e in p.events if e[0].endswith("::check") and "TestMatrix" in e[0]]
        bad = False
        for e in runs:
            g = fields(e[1][0])
            if set(g) != {"display", "tables", "mode", "tests"}:
                bad = True
                break
            d, t, m, s = (g[x] for x in ("display", "tables", "mode", "tests"))
            d = None if tag(d) == "None" else r.canon(d[4][0]) if tag(d) == "Some" else ("?",)
            t = vector(t, ev)
            if t is None or d == ("?",):
                bad = True
                break
            m = r.canon(m)
            m = None if tag(m) == "Forward" else m
            got.append((d, [r.canon(x) for x in t], m, r.canon(s)))
        if bad:
            und += 1
            continue
        n += 1
        checked |= set(keys)
        text = ", ".join(keys)
        rep.check("file", "one run per tests: %d" % len(want), len(got) == len(want), W, "after the keys %s there are %d runs instead of %d" % (text, len(got), len(want)))
        for (d, t, m, s), (wd, wt, wm, ws) in zip(got, want):
            rep.check("file", "display table", d == wd, W, "after the keys %s tests are run with %s" % (text, "display table %d" % (d[2] + 1) if d else "no display table"))
            rep.check("file", "tables", t == wt, W, "after the keys %s tests are run with the tables %s instead of %s" % (text, [x[2] + 1 for x in t if x[0] == "rd"], [x[2] + 1 for x in wt]))
            rep.check("file", "mode", m == wm, W, "after the keys %s tests are run in mode %s" % (text, short(m) if m and m[0] != "rd" else "%d" % (m[2] + 1) if m else "forward"))
            rep.check("file", "tests", s == ws, W, "after the keys %s the tests %s are run" % (text, short(s)))
        ch = chainof(v, ev)
        if v[0] == "fld" and v[1][0] == "call" and "TestMatrix" in v[1][1] and last(v[1][1]) == "check":
            ch = [v]
        if ch is None:
            und += 1
            continue
        uids = [e[2] for e in runs]
        rs = [t[1][3] if t[0] == "fld" and t[1][0] == "call" else None for t in ch]
        if None in rs:
            und += 1
            continue
        rep.check("file", "results of every run", rs == uids, W, "after the keys %s the results of %d runs are kept, of %d" % (text, len(rs), len(uids)))
    rep.count("sequences of keys", n)
    return und + (not n) + (not {"display", "table", "flags", "tests"} <= checked)


# -- the summary ---------------------------------------------------------------
COLUMNS = {"successes": "Success", "failures": "Failure", "expected_failures": "ExpectedFailure", "unexpected_successes": "UnexpectedSuccess"}


def variants_of(P, fn):
    """the results a predicate accepts"""
    out = {}
    for v in COLUMNS.values():
        x = accepts(P, fn, ("arg", 2), v)
        if x is None:
            return None
        out[v] = x
    return {v for v, x in out.items() if x}


def accepts(P, fn, subj, v, depth=0):
    if depth > 4:
        return None
    if fn[0] == "fn":
        g = P.fns.get(fn[1])
        args = [subj]
    else:
        g = P.fns.get(fn[1])
        args = [fn, subj]
    if g is None:
        return None
    got = set()
    for p in flow.Flow(P, inline_pred=lambda h: last(h.path).startswith("is_")).paths(g, args):
        if p.trunc:
            return None
        ok = True
        for k, x in p.conds.items():
            if k[0] == "discr" and k[1] == subj:
                ok = ok and (x[1] == v if x[0] == "=" else v not in x[1])
            elif k[0] == "isv" and k[1] == subj:
                ok = ok and (x == ("=", 1)) == (k[2] == v)
            elif subj in list(flow.walk(k)):
                return None
        if not ok:
            continue
        t = p.ret
        neg = False
        while t[0] == "un" and t[1] == "Not":
            t, neg = t[2], not neg
        if t[0] == "const":
            b = bool(t[1])
        elif t[0] == "isv" and t[1] == subj:
            b = t[2] == v
        else:
            return None
        got.add(b != neg)
    return got.pop() if len(got) == 1 else None


def summary(rep, P):
    und = n = 0
    f = one(P, "crate::check_yaml")
    W = where(f)
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        ev = seq.events(p)
        elems = [k[1] for k, x in p.conds.items() if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) == "next" and x == ("=", "+")]
        if len(elems) != 1:
            continue
        b = elems[0][2][0]
        ok = b[0] == "call" and last(b[1]) == "zip"
        if not ok:
            und += 1
            continue
        s, ops = stages(b[2][1])
        if s != ("arg", 1) or [o for o, _ in ops] != ["map"] or stages(b[2][0]) != (("arg", 1), []):
            if s == ("arg", 1) and [o for o, _ in ops if o in ("rev", "filter", "skip", "take", "step_by")] or stages(b[2][0])[0] == ("arg", 1) and stages(b[2][0])[1]:
                rep.bad("summary", "each file with its own results", W, "the results are not matched with the files they belong to")
            und += 1
            continue
        st = None
        for v in ("+", "Some"):
            e = ("fld", elems[0], v, "0")
            oc = ("fld", e, None, "1")
            st = p.conds.get(("discr", oc))
            if st:
                break
        if st is None:
            und += 1
            continue
        n += 1
        if st == ("=", "-"):
            pr = [x for x in p.events if last(x[0]) in ("_eprint", "_print") and [y for y in flow.walk(x[1]) if y == ("fld", oc, "Err", "0") or y == ("fld", oc, "-", "0")]]
            rep.check("summary", "errors of a file are printed", bool(pr), W, "the error of a file is not printed")
            continue
        res = [("fld", oc, x, "0") for x in ("+", "Ok")]
        pushes = [x for x in p.events if last(x[0]) == "push" and x[1][1][0] == "agg" and x[1][1][2] == "YAMLTestResult"]
        ups = [x for x in p.events if last(x[0]) == "update"]
        if len(pushes) != 1:
            und += 1
            continue

        def column(t):
            """what a number counts: 'tests' or the accepted results"""
            if t[0] == "call" and last(t[1]) == "len" and t[2][0] in res:
                return "tests"
            if t[0] == "call" and last(t[1]) == "count":
                s, ops = seq.stages(t[2][0])
                if s in res and [o for o, _ in ops] == ["filter"]:
                    return variants_of(P, ops[0][1][0])
                if s in res and not ops:
                    return "tests"
            return None
        g = fields(pushes[0][1][1])
        for a in ("tests",) + tuple(COLUMNS):
            c = column(g[a])
            if c is None:
                und += 1
                continue
            w = "tests" if a == "tests" else {COLUMNS[a]}
            rep.check("summary", "number of " + a, c == w, W, "the number of %s counts %s" % (a.replace("_", " "), c if c == "tests" else ", ".join(sorted(c))))
        # the total
        if len(ups) == 1:
            u = one(P, "YAMLTestResult::update")
            names = ("tests",) + tuple(COLUMNS)
            for q in flow.Flow(P).paths(u):
                adds = {}
                for x in q.events:
                    if x[0] == "store" and x[1][0][0] == "fld":
                        t = x[1][1]
                        i = [y[1] for y in t[2:4] if y[0] == "arg" and y[1] > 1] if t[0] == "bin" and t[1].startswith("Add") else []
                        o = [y for y in t[2:4] if y == x[1][0]] if t[0] == "bin" else []
                        adds[x[1][0][3]] = i[0] if i and o else None
                if not adds:
                    und += 1
                for a in names:
                    if a not in adds:
                        rep.check("summary", "total of " + a, not adds, where(u), "the %s are not added to the total" % a.replace("_", " "))
                        continue
                    if adds[a] is None:
                        rep.bad("summary", "total of " + a, where(u), "the total of %s is not the sum over the files" % a.replace("_", " "))
                        continue
                    c = column(ups[0][1][adds[a] - 1])
                    if c is None:
                        und += 1
                        continue
                    w = "tests" if a == "tests" else {COLUMNS[a]}
                    rep.check("summary", "total of " + a, c == w, W, "the total of %s counts %s" % (a.replace("_", " "), c if c == "tests" else ", ".join(sorted(c))))
        elif ups:
            rep.bad("summary", "total", W, "a file is added to the total %d times" % len(ups))
        else:
            und += 1
    # which outcomes are printed
    pr = 0
    for p in flow.Flow(P, loop_bound=2).paths(f):
        if p.trunc or p.div:
            continue
        for x in p.events:
            if last(x[0]) == "next" and x[1][0][0] == "call" and last(x[1][0][1]) == "filter":
                s, ops = seq.stages(x[1][0])
                if s[0] == "fld" and [o for o, _ in ops] == ["filter"]:
                    c = variants_of(P, ops[0][1][0])
                    if c is None:
                        continue
                    pr += 1
                    rep.check("summary", "outcomes that are printed", c == set(COLUMNS.values()) - {"Success"}, W, "of the outcomes %s are printed" % ", ".join(sorted(c)))
                    rep.check("summary", "printed unless a summary is asked for", p.conds.get(("arg", 2)) in (("=", 0), None), W, "outcomes are printed together with the summary")
    und += not pr
    for name, a in (("display_successes", "successes"), ("display_failures", "failures"), ("display_expected", "expected_failures"), ("display_unexpected", "unexpected_successes")):
        fs = [g for q, g in P.fns.items() if q.endswith("YAMLTestResult::" + name)]
        if len(fs) != 1:
            und += 1
            continue
        for p in flow.Flow(P).paths(fs[0]):
            pc = [x for x in p.events if last(x[0]) == "percent"]
            if len(pc) != 1:
                und += 1
                continue
            rep.check("summary", "percentage of " + a, pc[0][1] == (("fld", ("arg", 1), None, a), ("fld", ("arg", 1), None, "tests")), where(fs[0]), "the percentage of %s is that of %s" % (a.replace("_", " "), short(pc[0][1][0])))
    g = one(P, "crate::percent")
    for p in flow.Flow(P).paths(g):
        t = p.ret
        ok = t[0] == "bin" and t[1] == "Div" and ("arg", 1) in list(flow.walk(t[2])) and ("arg", 2) in list(flow.walk(t[3]))
        if t[0] != "bin":
            und += 1
            continue
        rep.check("summary", "percentage", ok, where(g), "a percentage is " + short(t))
    # a file
    f = one(P, "crate::check_yaml_file")
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        op = [e for e in p.events if e[0].endswith("File::open")]
        rep.check("summary", "the file that is asked for", len(op) == 1 and op[0][1][0] == ("arg", 1), where(f), "another file than the one asked for is read")
    rep.count("files in the summary", n)
    return und + (not n)


XFAIL = {"off": 0, "false": 0, "on": 1, "true": 1}


def written(rep, P):
    """what stands in a test file for an expected failure or a list of tables means that and nothing else"""
    und = 0
    f = one(P, "YAMLParser::<'_>::xfail_value")
    seen = set()
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div or p.ret is None or p.ret[0] != "agg" or p.ret[2] != "Ok":
            continue
        r = p.ret[4][0]
        yes, odd = [], False
        for c, v in p.conds.items():
            lit = [x[1] for x in c[2:] if isinstance(x, tuple) and x[0] == "str"] if c[0] == "bin" and c[1] == "Eq" else [x[1] for x in c[2] if x[0] == "str"] if c[0] == "call" and last(c[1]) == "eq" else None
            if lit and len(lit) == 1:
                if v == ("=", 1):
                    yes.append(lit[0])
            elif c[0] != "discr":
                odd = True
        if odd or r[0] != "agg" or len(yes) > 1:
            und += 1
            continue
        got = r[4][0][1] if r[2] == "Simple" and r[4][0][0] == "const" else r[2]
        w = yes[0] if yes else None
        seen.add(w)
        rep.check("expected failure", "written %s" % (w or "otherwise"), got == XFAIL.get(w, "Reason"), where(f), "an expected failure written `%s` is read as %s" % (w or "anything else", got))
    for w in XFAIL:
        if seen and not und:
            rep.check("expected failure", "written " + w, w in seen, where(f), "`%s` is not read as what it says" % w)
    n = 0
    for m, g in P.fns.items():
        if "YAMLParser" not in m or "{closure" in m:
            continue
        for p in flow.Flow(P).paths(g):
            for x in flow.walk(p.ret) if p.ret is not None else ():
                if x[0] == "call" and last(x[1]) == "collect":
                    try:
                        b, ops = seq.stages(x)
                    except seq.Unknown:
                        continue
                    names = [o for o, _ in ops]
                    if "split" in names or "rsplit" in names:
                        n += 1
                        bad = [o for o in names if o in ("take", "skip", "filter", "rev", "rsplit", "step_by", "take_while", "skip_while", "dedup", "filter_map")]
                        rep.check("lists", "elements of a written list", not bad, where(g), "a list written in one line goes through %s" % bad)
    return und


def run(rep, L, B):
    rep.parts([written, verdict, words, emphasis, test, lists, tables, matrix, yaml, summary], B)
