"""C01: no table, text or argument makes the library panic.

Rule `sites`: a value is unwrapped, a place indexed, a length taken from another, only where a condition on the way there speaks of
what is unwrapped, of the place or index, or of the lengths (or what is done before makes it safe).
Rule `explicit`: nothing that a table or a text decides leads to a panic, an unfinished place or a failed assertion.
Rule `cases`: the functions that scan texts end without a panic for every short text and every set of facts about its characters.
"""
import flow, words
from rules.c12 import where
from terms import last, short

ITER = ("next", "next_back", "peek")


def strip(t):
    """what a place was before it was changed"""
    while t[0] in ("mut", "upd"):
        t = t[3] if t[0] == "mut" else t[1]
    return t


def bare(t, memo=None):
    """a term without what changed its parts"""
    t = strip(t)
    if t[0] == "call":
        return ("call", t[1], tuple(bare(x) for x in t[2]))
    if t[0] == "fld":
        return ("fld", bare(t[1])) + t[2:]
    if t[0] == "un":
        return ("un", t[1], bare(t[2])) if len(t) > 2 and isinstance(t[2], tuple) else t
    if t[0] == "bin":
        return ("bin", t[1], bare(t[2]), bare(t[3]))
    return t


def varying(t):
    """the parts a number is the sum of, without constants"""
    t = strip(t)
    if t[0] == "bin" and t[1] in ("Add", "Sub", "Mul", "Div", "Rem"):
        return varying(t[2]) | varying(t[3])
    if t[0] == "agg":
        out = set()
        for x in t[4]:
            out |= varying(x)
        return out
    if t[0] in ("const", "char", "str"):
        return set()
    if t[0] == "call" and last(t[1]) in ("len", "count", "clone", "deref", "as_ref", "as_str", "iter", "chars") and t[2]:
        return {bare(t)} | varying(t[2][0])
    return {bare(t)}


def iterated(t):
    """the sequence or range an element comes from"""
    t = strip(t)
    while t[0] == "fld":
        t = strip(t[1])
    if t[0] == "call" and last(t[1]) in ITER and t[2]:
        return strip(t[2][0])
    return None


def spoken(st, rel):
    """does a condition on the way speak of one of the parts?"""
    for c, v in st.conds.items():
        plain = c[0] in ("discr", "isv") and strip(c[1])
        if plain and plain[0] == "call" and last(plain[1]) in ITER and bare(plain) not in rel:
            continue
        if plain and plain[0] in ("arg", "fld") and bare(plain) not in rel:
            continue
        for x in flow.walk(c):
            if x[0] in ("call", "fld", "arg", "bin") and bare(x) in rel:
                return True
    return False


PARTIAL = {"get", "get_mut", "first", "last", "first_mut", "last_mut", "next", "next_back", "peek", "pop", "pop_front", "pop_back", "find", "rfind", "position", "rposition", "parse", "from_str_radix", "from_u32", "from_digit",
           "to_digit", "checked_sub", "checked_add", "nth", "min", "max", "min_by_key", "max_by_key", "strip_prefix", "strip_suffix", "split_once", "rsplit_once", "char_transition", "any_transition", "next_if", "next_if_eq",
           "from_str", "try_from", "try_into", "remove", "swap_remove", "get_key_value", "from_utf8", "read_to_string", "find_map", "reduce", "last_key_value", "first_key_value", "parent", "file_name", "to_str"}
SIZE = ("len", "count")


def indexed(e, st):
    """(decided, safe)"""
    v, i = e[1][0], e[1][1]
    if v[0] == "un" and len(v) > 2 and isinstance(v[2], tuple):
        v = v[2]
    rel = {bare(v)} | varying(i)
    if spoken(st, rel):
        return True
    i = strip(i)
    if i[0] == "const":
        if v[0] == "array" or strip(v)[0] in ("agg", "array"):
            return True
        return None if strip(v)[0] not in ("arg", "call", "fld") else False
    off, k = 0, i
    if i[0] == "bin" and i[1] in ("Add", "Sub") and strip(i[3])[0] == "const":
        off, k = (1 if i[1] == "Add" else -1) * strip(i[3])[1], strip(i[2])
    it = iterated(k)
    if it is None:
        if i[0] == "agg":       # a part: only what is taken from a place that is given
            return None
        return None if i[0] not in ("arg",) and off == 0 else False if off else None
    lo, hi = bounds(it)
    same = lambda t: t is not None and any(x[0] in ("arg", "fld", "call") and bare(x) == bare(v) for x in flow.walk(t))
    if off > 0:
        return False if (hi is not None and strip(hi)[0] == "call" and last(strip(hi)[1]) in SIZE and same(hi)) or hi is None and same(it) and last(it[1]) == "enumerate" else None
    if off < 0:
        return False if (lo is not None and lo[0] == "const" and lo[1] < -off) or hi is None and same(it) and last(it[1]) == "enumerate" else None
    if it[0] == "call" and last(it[1]) == "new" and "RangeInclusive" in it[1] and strip(it[2][1])[0] == "call" and last(strip(it[2][1])[1]) in SIZE and same(it[2][1]):
        return False
    return None


def bounds(it):
    while it[0] == "call" and last(it[1]) in ("into_iter", "iter", "rev", "by_ref") and it[2]:
        it = strip(it[2][0])
    if it[0] == "agg" and it[2] == "Range" and len(it[4]) == 2:
        return it[4]
    return None, None


def unwrapped(e, st):
    v = strip(e[1][0])
    if v[0] == "agg":
        return True
    rel = {bare(v)}
    if v[0] == "call":
        for a in v[2]:
            rel |= varying(a)
    if spoken(st, rel):
        return True
    t = v
    while t[0] in ("okor", "maperr", "ok", "map", "errof"):
        t = strip(t[1])
    if t[0] == "call" and last(t[1]) in PARTIAL:
        if any(x[0] == "mut" and last(x[2]) in ("push", "push_back", "insert") for x in flow.walk(e[1][0])):
            return None
        return False if any(x[0] in ("arg", "fld", "call") for a in t[2] for x in flow.walk(a)) else None
    return None


def reduced(e, st):
    a, b = (strip(x) for x in e[1])
    if b[0] != "const" and a[0] != "const" and not any(x[0] == "call" and last(x[1]) in SIZE for x in (a, b)):
        return None
    if a[0] == "const" and b[0] == "const":
        return a[1] >= b[1]
    if spoken(st, varying(a) | varying(b)):
        return True
    if a[0] == "bin" and a[1] == "Add" and b[0] == "const" and any(strip(x)[0] == "const" and strip(x)[1] >= b[1] for x in a[2:4]):
        return True
    it = iterated(a)
    if it is not None:
        lo, hi = bounds(it)
        return lo[1] >= b[1] if lo is not None and lo[0] == "const" and b[0] == "const" else False if b[0] == "const" and it[0] == "call" and last(it[1]) == "enumerate" else None
    if a[0] in ("call", "fld", "arg"):
        return False
    return None


# what is safe for a reason that lies elsewhere: (function, what): why
ACCEPTED = {
    ("HyphenationTable::break_points", "index"): "boundaries of the same text; followed in rule cases",
    ("HyphenationTable::break_points", "reduced"): "the list of boundaries ends with the length of the text",
    ("BrailleChar::to_unicode", "unwrap"): "a sum of the bits of the fifteen dots is below 0x110000",
    ("action::Action> for std::string::String>::try_from", "unwrap"): "all instructions are literals, which is asked before",
    ("test::Test> for std::string::String>::try_from", "unwrap"): "all instructions are literals, which is asked before",
    ("braille::fallback", "unwrap"): "the array's characters are dots",
    ("ClassIndicator::emit_run", "index"): "positions of the run; followed in rule cases (C22)",
    ("ClassIndicator::emit_clean_words", "index"): "called with words only",
    ("ClassIndicator::emit_partial", "index"): "called with words only",
    ("ClassIndicator::active_positions", "index"): "the end of a span is cut at the end of the text",
    ("Indicator::emit_group", "index"): "called with groups of words only",
    ("Indicator::emit_group", "unwrap"): "called with groups of words only",
    ("Regexp::emit", "index"): "places reserved before, in the same list",
    ("Regexp::emit", "reduced"): "the list of captures has what was pushed before",
    ("from_instructions", "index"): "one instruction at least is matched before",
    ("Bitset::get", "index"): "places for every instruction are made first",
    ("Bitset::insert", "index"): "places for every instruction are made first",
    ("CompiledRegexp::find_anchored", "index"): "program counters of instructions; boundaries of characters (C13)",
    ("PrimaryTable::trace", "reduced"): "a rule that is found has a character at least",
    ("ResolvedTranslation::decrement_offset", "reduced"): "callers take away what is left at most",
}


def enclosing(path):
    return path.split("::{closure")[0]


def accepted(path, what):
    return any(path.endswith(f) and what == w for f, w in ACCEPTED)


def tally(rep, what, n=1):
    """counts add up"""
    old = getattr(rep, "counts", {}).get(what, 0)
    rep.count(what, old + n)


def sites(rep, P):
    und = 0
    rules = {"unwrap": unwrapped, "expect": unwrapped, "index": indexed, "index_mut": indexed}
    what = {"unwrapped": "unwrap", "indexed": "index", "reduced": "reduced"}
    say = {"unwrap": "%s is unwrapped, and nothing before it says that there is one", "index": "a place is indexed with %s, and nothing before it says that there is one", "reduced": "%s: nothing before it says that the first is not less"}
    n = 0
    for path, f in sorted(P.fns.items()):
        closure = f.kind == "closure"
        if f.derived or closure and not enclosing(path) in P.baseline or not closure and path not in P.baseline or "::tests" in path or "crate::" not in path:
            continue
        found = {}

        def probe(e, st, path=path, closure=closure):
            m = last(e[0])
            if closure and m not in ("unwrap", "expect"):
                return
            r = reduced if e[0].startswith("assert:overflow:Sub") else indexed if e[0].startswith("assert:bounds") else rules.get(m) if e[0].startswith(("std::", "core::", "<std", "alloc", "<smallvec")) else None
            if r is None or len(e[1]) < (1 if r is unwrapped else 2):
                return
            try:
                ok = r(e, st)
            except (TypeError, IndexError):
                ok = None
            k = (what[r.__name__], e[3])
            old = found.get(k)
            if old is None or old[0] is not False:
                found[k] = (ok if ok is not None or old is None else old[0], e)
        fl = flow.Flow(P, max_paths=1500)
        fl.probe = probe
        try:
            fl.paths(f)
        except flow.FlowLimit:
            tally(rep, "functions followed in part")
        count = {}
        for (w, loc), (ok, e) in sorted(found.items()):
            n += 1
            if ok is None:
                tally(rep, "places safe for reasons not followed")
                continue
            if accepted(enclosing(path), w):
                tally(rep, "places accepted with a reason")
                continue
            k = "%s in %s" % (w, enclosing(path).replace("crate::", ""))
            count.setdefault(k, []).append((ok, loc, e))
        for k, xs in count.items():
            bad = [x for x in xs if not x[0]]
            w = k.split(" ")[0]
            arg = short(bad[0][2][1][0 if w != "index" else 1])[:80] + (" - " + short(bad[0][2][1][1])[:40] if w == "reduced" else "") if bad else ""
            rep.check("sites", k, not bad, bad[0][1] if bad else xs[0][1], say[w] % arg)
    rep.count("places that could panic", n)
    return und


# panics that no table or text can bring about
EXPLICIT = {
    "Trie::insert": "what is inserted has a character at least",
    "Regexp::negate": "neither literals nor captures can be negated: the parser says so",
    "from_patterns": "the parser rejects an empty pattern",
    "from_attributes": "the parser gives neither inside a class",
    "CompiledRegexp::find_anchored": "only these instructions become threads",
    "fmt": "printing of rules that are not printed",
}


def believed(P):
    """places of debug assertions: what the programmer holds to be true, and not in a release build"""
    out = set()
    for f in P.fns.values():
        for b in f.blocks:
            e = b["t"]
            if e[0] == "call" and e[4] == -1 and len(e[5]) > 2 and any("debug_assert" in str(m) for m in e[5][2]):
                out.add("%s:%d" % (e[5][0], e[5][1]))
    return out


def explicit(rep, P):
    n = 0
    belief = believed(P)
    for path, f in sorted(P.fns.items()):
        if f.derived or path not in P.baseline or "::tests" in path or not path.startswith("crate::") or f.kind == "closure" or path.endswith("::_") or "::_#" in path:
            continue
        got = set()

        def probe(e, st):
            m = last(e[0])
            if m in ("panic", "panic_fmt", "todo_default_msg", "unimplemented_default_msg", "panic_display", "panic_explicit", "assert_failed", "begin_panic", "expect_failed") and "panicking" in e[0]:
                t = " ".join(short(a) for a in e[1])
                if "unreachable" not in t and not (m == "panic" and "::enumset" in t):
                    got.add(e[3])
        fl = flow.Flow(P, max_paths=1500)
        fl.probe = probe
        try:
            fl.paths(f)
        except flow.FlowLimit:
            pass
        n += 1
        if got & belief:
            tally(rep, "debug assertions not decided", len(got & belief))
            got -= belief
        if got and any(path.endswith(k) for k in EXPLICIT):
            tally(rep, "panics accepted with a reason", len(got))
            continue
        if got:
            rep.check("explicit", path.replace("crate::", ""), False, sorted(got)[0], "what a table or a text decides leads to a panic")
    rep.check("explicit", "all functions", True, "src/lib.rs:1", "")
    rep.count("functions searched for panics", n)
    return 0


class Ends:
    """hears only of ends of the program"""

    def __init__(self, rep):
        self.rep = rep

    def check(self, rule, inst, ok, W, msg=""):
        if inst in words.PANICS:
            self.rep.check("cases", inst, ok or "it gives the end of the program" not in msg, W, msg)

    def count(self, k, n=1):
        if k.startswith("cases of "):
            tally(self.rep, k, n)

    def parts(self, fns, *args):
        for fn in fns:
            try:
                fn(self, *args)
            except Exception as e:
                tally(self.rep, "parts not followed")


def cases(rep, P):
    from rules import c17, c18, c20, c21, c22, c24, c25, c26, c27
    old, words.MAX = words.MAX, words.MAX - 1
    words.PANICS = []
    try:
        ends = Ends(rep)
        ends.parts([c17.file, c17.pattern, c17.breaks, c17.inwords, c17.nocross], P)
        for m in (c18, c20, c21, c22, c24, c25, c26, c27):
            m.run(ends, P, None)
    finally:
        words.MAX, words.PANICS = old, None
    return 0


def run(rep, L, B):
    rep.parts([sites, explicit, cases], L)


LEVEL = "other"
EXPLANATION = ("Panic freedom. `sites`: the paths of every function of the library are followed (helpers in place), and at every unwrap, expect, index and "
               "subtraction of lengths, a condition on the way there has to speak of what is unwrapped, of the place or of the lengths, unless what was "
               "done before makes the place safe by itself (bounds of a range, places made before) or the table of reviewed places says why it is. "
               "`explicit`: no panic!, todo!, unreachable assertion or failed assert lies on a path, but those the table of reviewed places gives a reason for. "
               "`cases`: the scanning functions (hyphenation, numbers, capitals, computer braille, emphasis, punctuation, letter signs, the trie, composition) "
               "are evaluated for every text up to a few characters and every combination of facts about these, and none may end in a panic.")
ASSUMPTIONS = ["Exhaustion of memory or of the stack (deeply nested expressions, endless input) is left out.",
               "Places whose safety lies in another function are reviewed by hand; the table in the rule gives the reason for each.",
               "A condition that speaks of a place is taken to guard it; that it guards it rightly is decided by `cases` where the function scans a text.",
               "Closures are followed only where the functions around them apply them; code of dependencies and of the standard library is taken as documented."]
