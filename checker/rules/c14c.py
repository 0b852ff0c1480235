"""C14, third part: the notation of tests, actions and match patterns, read off the parsers as grammar productions."""
import re
import flow
from grammar import Reader, Symbol, payload
from terms import last, short
from rules.c12 import where
from rules.c14b import strip, Unknown

NUM = "(?:<ascii_number>|(?:<:digit>)*)"
Q = "(?:<maybe_quantifier>)?"
ATTR = r"(?:<attribute>|<:[^>]*>|[a-zA-Z0-7_#.$~^])"
ESC = r'(?:<:not [^>]*>|<:any>|\\?s|\\"|\\[xy](?:<unescape_unicode>|(?:<:any>)*)|\\)*'

TEST = ("crate::parser::multipass::test::Parser", ("test", "many_tests", "ascii_number", "maybe_quantifier", "consume", "attribute", "operator", "unescape_unicode", "handle_escape_sequence"))
ACTION = ("crate::parser::multipass::action::Parser", ("action", "many_actions", "ascii_number", "consume", "unescape_unicode", "handle_escape_sequence"))
MATCH = ("crate::parser::match_rule::PatternParser", ("inner_pattern", "pattern_with_quantifier", "sequence", "either", "pattern", "consume", "attribute"))

# kind -> notation, and for its fields the number of the sub-parser they come from
SPEC = {
    (TEST, "test"): {
        "Lookback": ("_" + "(?:%s)?" % NUM, {"len": 0}), "Class": (r"%(?:<:1-7>|[1-7]|(?:<:alpha>)*" + Q + ")", {"quantifier": 0}), "Dots": ("@(?:<:dots>)*", {}),
        "String": ('"(?:<handle_escape_sequence>|%s)*"' % ESC[:-1], {}), "Attributes": (r"\$" + ATTR + "*" + Q, {"quantifier": -1}), "Replace": (r"\[<many_tests>\]", {"tests": 0}),
        "Variable": ("#%s(?:<operator>|[=<>]=?)%s" % (NUM, NUM), {"var": 0, "op": 1, "operand": 2}), "Negate": ("!<test>", {"test": 0}), "AtBeginning": ("`", {}), "AtEnd": ("~", {})},
    (TEST, "operator"): {"Eq": ("=", {}), "Lt": ("<", {}), "LtEq": ("<=", {}), "Gt": (">", {}), "GtEq": (">=", {})},
    (TEST, "maybe_quantifier"): {"None": ("", {}), "OneOrMore": (r"\.", {}), "Number": (NUM, {"0": 0}), "Range": ("%s-%s" % (NUM, NUM), {"0": 0, "1": 1})},
    (ACTION, "action"): {
        "Dots": ("@(?:<:dots>)*", {}), "String": ('"(?:<handle_escape_sequence>|%s)*"' % ESC[:-1], {}), "Replace": (r"\*", {}), "Ignore": (r"\?", {}),
        "Assignment": ("#%s=%s" % (NUM, NUM), {"variable": 0, "value": 1}), "Increment": (r"#%s\+" % NUM, {"variable": 0}), "Decrement": ("#%s-" % NUM, {"variable": 0}),
        "SwapClass": ("%(?:<:alpha>)*", {})},
    (MATCH, "inner_pattern"): {
        "Any": (r"\.", {}), "Attributes": (r"%(?:\[" + ATTR + r"*\]|" + ATTR + ")", {}), "AttributesOrBoundary": (r"%(?:\[" + ATTR + r"*\]|" + ATTR + ")", {}),
        "Boundary": (r"\^|\$|%(?:\[" + ATTR + r"*\]|" + ATTR + ")", {}), "Negate": ("!<pattern_with_quantifier>", {"0": 0}), "Set": (r"\[.*\]", {}), "Group": (r"\(<either>\)", {"0": 0}),
        "Characters": (r"(?:<:[^>]*>)*", {})},
    (MATCH, "pattern_with_quantifier"): {"Optional": (r"<inner_pattern>\?", {"0": 0}), "ZeroOrMore": (r"<inner_pattern>\*", {"0": 0}), "OneOrMore": (r"<inner_pattern>\+", {"0": 0}), "nt": ("<inner_pattern>", {})},
    (MATCH, "either"): {"Either": (r"<sequence>(?:\|<sequence>)+", {"0": 0, "1": 1}), "nt": ("<sequence>", {})},
    (MATCH, "pattern"): {"Empty": ("-", {}), "nt": ("<either>", {}), "Patterns": ("", {})},
}
OPTIONAL_KINDS = {"Characters", "nt", "Patterns"}
ATTRS = {
    TEST: dict(a="Any", d="Class(Digit)", D="Class(Litdigit)", l="Class(Letter)", m="Class(Math)", p="Class(Punctuation)", S="Class(Sign)", s="Class(Space)", U="Class(Uppercase)",
               u="Class(Lowercase)", w="ByOrder(1)", x="ByOrder(2)", y="ByOrder(3)", z="ByOrder(4)"),
    MATCH: dict({"_": "Class(Space)", "#": "Class(Digit)", "a": "Class(Letter)", "u": "Class(Uppercase)", "l": "Class(Lowercase)", ".": "Class(Punctuation)", "$": "Class(Sign)",
                 "~": "Class(Seqdelimiter)", "<": "Class(Seqbeforechars)", ">": "Class(Seqafterchars)", "^": "Boundary"}, **{c: "Class(UserDefined(it))" for c in "01234567"}),
}
STARTS = {(TEST, "many_tests"): frozenset('_%@"$[#!`~'), (ACTION, "many_actions"): frozenset('@"%#*?')}
ELEMENT = {"many_tests": "test", "many_actions": "action", "sequence": "pattern_with_quantifier"}


def variant(t):
    t = payload(t)
    while t[0] == "agg" and t[2] in ("Patterns", "Test", "Action") and len(t[4]) == 1:
        inner = t[4][0]
        if inner[0] in ("array", "tuple") and len(inner[1]) == 1:
            t = inner[1][0]
        elif inner[0] == "agg" and inner[2] not in ("Vec",):
            t = inner
        else:
            return t[2], t
    if t[0] == "agg":
        return t[2], t
    if t[0] == "fld" or t[0] == "call":
        return "nt", t
    return None, t


def notation(rep, P):
    """every construct is written as documented and its parts end up in their own fields"""
    und = 0
    for (parser, name), spec in SPEC.items():
        R = Reader(P, *parser)
        f = R.fn(name)
        prods, u = R.productions(name)
        und += u
        seen = set()
        names = {x for k, sp in SPEC.items() if k[0] == parser for v in sp.values() for x in re.findall(r"<(\w+)>", v[0])}
        group = "notation of " + parser[0].split("::")[-2] + " " + name
        for q in prods:
            k, t = variant(q.ret)
            if k == "None" and name != "maybe_quantifier" or k is None or k not in spec:
                und += 1
                continue
            rx, fields = spec[k]
            text = q.text()
            if not re.fullmatch(rx, text):
                # characters taken in another way, or sub-parsers under other names, are not understood
                known = set(re.findall(r"<(\w+)>", rx))
                other = [n for n in q.parsers() if n not in known]
                want = set(re.sub(r"<[^>]*>|\\(?=[^\w])|\(\?:|[()*+?|\[\]]", "", rx))
                lits = q.literals()
                if other and not all(n in names for n in other):
                    und += 1
                    continue
                rep.check(group, k, False, where(f), "%s is written `%s`" % (k, re.sub(r"<:?([^>]*)>", r"<\1>", text)))
                continue
            seen.add(k)
            rep.ok(group, "%s: %s" % (k, text))
            if t[0] == "agg":
                vals = {str(n): o for n, o in zip(t[3], t[4])}
                nts = q.parsers()
                for n, want in fields.items():
                    if n not in vals:
                        continue
                    r = q.rank(vals[n])
                    w = len(nts) - 1 if want == -1 else want
                    if r is None:
                        v = strip(vals[n])
                        if v[0] == "agg" and v[2] == "None" or v[0] == "const" or not nts:
                            if nts and w < len(nts) and v[0] == "agg":
                                rep.check(group, "%s.%s" % (k, n), False, where(f), "the %s of %s is dropped" % (n, k))
                            continue
                        und += 1
                        continue
                    rep.check(group, "%s.%s" % (k, n), r == w, where(f), "the %s of %s is taken from operand %d of `%s`" % (n, k, r + 1, text))
                if k == "Lookback" and not nts and vals["len"][0] == "const" and "<:digit>" not in text:
                    rep.check(group, "Lookback default", vals["len"] == ("const", 1), where(f), "a lookback without a number goes back %s" % (vals["len"][1],))
                if k == "Boundary":
                    b = strip(vals["0"])
                    rep.check(group, "Boundary side", b[0] == "fld" and b[3] == "side", where(f), "a boundary is not on the side of its pattern")
                if k == "Range":
                    guard_range(rep, group, q, vals, f)
        for k in set(spec) - seen - OPTIONAL_KINDS:
            if u or any(variant(q.ret)[0] is None for q in prods):
                und += 1
            else:
                rep.check(group, k, False, where(f), "no notation yields %s" % k)
    return und


def guard_range(rep, group, q, vals, f):
    """a range whose minimum exceeds its maximum is refused"""
    import truth
    a, b = vals["0"], vals["1"]
    got = set()
    for x, y in ((2, 1), (1, 2)):
        def leaf(t):
            return x if strip(t) == strip(a) or t == a else y if strip(t) == strip(b) or t == b else None
        rel = [(c, v) for c, v in q.path.conds.items() if c[0] in ("bin", "call") and any(z == a for z in flow.walk(c)) and any(z == b for z in flow.walk(c))]
        try:
            if truth.admits(rel, leaf):
                got.add(x < y)
        except truth.NoValue:
            return
    rep.check(group, "Range bounds", got == {True}, where(f), "a range is accepted although its minimum exceeds its maximum" if False in got else "a range with its minimum below its maximum is refused")


def attr_text(t, q):
    t = payload(t)
    if t[0] == "agg" and t[2] in ("Class", "ByOrder", "Any", "Boundary"):
        if not t[4]:
            return t[2]
        x = strip(t[4][0])
        if x[0] == "const":
            return "%s(%s)" % (t[2], x[1])
        if x[0] == "agg" and x[4]:
            y = strip(x[4][0])
            return "%s(%s(%s))" % (t[2], x[2], "it" if y[0] == "fld" and y[1][0] == "call" and last(y[1][1]) in ("next", "peek", "next_if") else repr(y[1]) if y[0] in ("str", "char") else "?")
        if x[0] == "agg":
            return "%s(%s)" % (t[2], x[2])
    raise Unknown(short(t))


def attribute_table(rep, P):
    und = 0
    for parser, spec in ATTRS.items():
        R = Reader(P, *parser)
        f = R.fn("attribute")
        prods, u = R.productions("attribute")
        und += u
        group = "attributes of " + parser[0].split("::")[-2]
        seen = set()
        for q in prods:
            syms = [x for x in q.items if isinstance(x, Symbol) and x.consumed]
            if len(syms) != 1 or q.parsers():
                und += 1
                continue
            try:
                got = attr_text(q.ret, q)
            except Unknown:
                und += 1
                continue
            for c in syms[0].allowed:
                want = spec.get(c)
                seen.add(c)
                if want is None:
                    rep.check(group, "attribute " + c, False, where(f), "attribute %s is not documented but accepted" % c)
                    continue
                g = got.replace("'%s'" % c, "it")
                if "?" in g:
                    und += 1
                    continue
                rep.check(group, "attribute " + c, g == want, where(f), "attribute %s stands for %s instead of %s" % (c, g, want))
        for c in set(spec) - seen:
            if u or und:
                und += 1
            else:
                rep.check(group, "attribute " + c, False, where(f), "attribute %s is not accepted" % c)
    # the characters that are taken as attributes of a test
    R = Reader(P, *TEST)
    f = R.fn("attributes")
    for q in R.productions("attributes")[0]:
        i = next((i for i, x in enumerate(q.items) if not isinstance(x, Symbol) and x[1] == "attribute"), None)
        look = q.items[i - 1] if i else None
        if isinstance(look, Symbol) and not look.consumed and len(look.allowed) < 60:
            rep.check("attributes of test", "accepted", look.allowed == frozenset(ATTRS[TEST]), where(f), "the characters accepted as attributes are %s" % "".join(sorted(look.allowed)))
    return und


def lists(rep, P):
    """a list of tests, actions or patterns holds all of them in order, and nothing is left over"""
    und = 0
    for parser, name in ((TEST, "many_tests"), (ACTION, "many_actions"), (MATCH, "sequence")):
        R = Reader(P, *parser)
        f = R.fn(name)
        el = ELEMENT[name]
        group = "list of " + el
        prods, u = R.productions(name, loop_bound=2)
        und += u
        done = 0
        for q in prods:
            nts = q.parsers()
            if any(n != el for n in nts):
                und += 1
                continue
            pushed = [q.rank(e[1][1]) for e in q.path.events if last(e[0]) in ("push", "push_back")]
            if any(r is None for r in pushed) or [e for e in q.path.events if last(e[0]) in ("insert", "extend", "push_front")]:
                if not [e for e in q.path.events if last(e[0]) == "insert"]:
                    und += 1
                    continue
            done += 1
            rep.check(group, "%d in order" % len(nts), pushed == list(range(len(nts))), where(f), "of a list of %d the parsed list holds %s" % (len(nts), pushed))
            if (parser, name) in STARTS and nts:
                look = q.items[0]
                if isinstance(look, Symbol) and not look.consumed and len(look.allowed) < 60:
                    rep.check(group, "start", look.allowed == STARTS[(parser, name)], where(f), "a list goes on with any of %s" % "".join(sorted(look.allowed)))
        und += not done
    for parser, name in ((TEST, "tests"), (ACTION, "many_actions"), (MATCH, "pattern")):
        R = Reader(P, *parser)
        f = R.fn(name)
        prods, u = R.productions(name)
        for q in prods:
            end = q.items[-1]
            if not q.parsers() or not isinstance(end, Symbol):
                continue
            if not end.reads:
                rep.check("rest of the operand", name, False, where(f), "what follows a complete %s is ignored" % name)
                continue
            rep.check("rest of the operand", name, not end.allowed, where(f), "characters that are left over are ignored")
    return und


def escapes(rep, P):
    und = 0
    for parser in (TEST, ACTION):
        R = Reader(P, *parser)
        f = R.fn("handle_escape_sequence")
        prods, u = R.productions("handle_escape_sequence")
        und += u
        want = {"s": "' '", '"': "'\"'", "x<unescape_unicode>": "4", "y<unescape_unicode>": "5"}
        seen = set()
        for q in prods:
            text = q.text()
            r = payload(q.ret)
            if text in want:
                got = repr(r[1]) if r[0] == "char" else str(r[2][1][1]) if r[0] in ("call",) and last(r[1]) == "unescape_unicode" and r[2][1][0] == "const" else None
                if got is None:
                    x = [y for y in flow.walk(r) if y[0] == "call" and last(y[1]) == "unescape_unicode"]
                    got = str(x[0][2][1][1]) if x and x[0][2][1][0] == "const" else None
                if got is None:
                    und += 1
                    continue
                seen.add(text)
                rep.check("escape", parser[0].split("::")[-2] + " \\" + text, got == want[text], where(f), "the escape \\%s stands for %s" % (text, got))
            elif text == "":
                rep.check("escape", parser[0].split("::")[-2] + " plain", r == ("arg", 2) or r[0] not in ("arg", "char"), where(f), "a character that is no escape becomes %s" % short(r))
            else:
                und += 1
        und += len(set(want) - seen)
    return und


PARTS = [notation, attribute_table, lists, escapes]
