"""C14, second half: tests, patterns and actions are turned into exactly what they name."""
import flow
import truth
from prog import AnchorError
from terms import last, short
from rules.c12 import one, where

NOISE = ("new", "clone", "to_string", "into", "from", "to_owned", "deref", "as_str", "as_ref", "borrow", "as_slice", "to_vec", "iter", "into_iter", "cloned", "copied", "deref_mut", "unwrap_or_clone")


# what makes another text of a text
ALTER = ("trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen",
         "repeat", "escape_default", "escape_debug")


class Unknown(Exception):
    pass


def strip(t):
    while True:
        if t[0] == "call" and last(t[1]) in NOISE and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "cast" or t[0] == "un" and t[1] == "cast":
            t = t[-1]
        else:
            return t


def tr(t, calls, names):
    """readable form of a term built of fields of the arguments, constructors and the named calls"""
    t = strip(t)
    if t[0] == "arg":
        return names.get(t[1], "arg%d" % t[1])
    if t[0] == "fld":
        b = tr(t[1], calls, names)
        return b if t[2] in ("+",) else "%s.%s" % (b, t[3])
    if t[0] == "agg":
        if t[2] == "Empty":
            return "Empty"
        ops = [tr(o, calls, names) for o in t[4]]
        if t[2] == "Concat":
            ops = [x for o in ops for x in (o[4:-1].split(" ; ") if o.startswith("cat[") else [o]) if x != "Empty"]
            return ops[0] if len(ops) == 1 else "cat[%s]" % " ; ".join(ops) if ops else "Empty"
        if t[2] in ("Group", "Some", "Ok"):
            return ops[0]
        return t[2] + ("(%s)" % ", ".join(ops) if ops else "")
    if t[0] == "call" and last(t[1]) in calls:
        n = last(t[1])
        return "%s(%s)" % (n, ", ".join(tr(a, calls, names) for a in t[2][:calls[n]]))
    if t[0] in ("str", "char", "const"):
        return repr(t[1])
    if t[0] == "call" and last(t[1]) in ALTER and t[2]:
        return "%s(%s)" % (last(t[1]), tr(t[2][0], calls, names))
    if t[0] == "ordefault":
        return tr(t[1], calls, names)
    raise Unknown(short(t))


def kind(p, term=("arg", 1)):
    v = p.conds.get(("discr", term))
    return v[1] if v and v[0] == "=" else None


def table(rep, P, group, f, spec, calls, names, sub=None, args=None, inline=(), what="translated to", neg=None):
    """every kind of the argument yields the value of the table; returns undecided paths"""
    und, seen = 0, set()
    for p in flow.Flow(P, inline_pred=lambda g: g.path in inline).paths(f, args):
        if p.trunc or p.div:
            continue
        k = kind(p)
        ks = [k] if k else []
        if k is None:
            v = p.conds.get(("discr", ("arg", 1)))
            ks = [x for x in spec if v and v[0] == "!=" and x not in v[1]]
            if not v:
                und += 1
                continue
        for k in ks:
            if k not in spec:
                continue
            try:
                got = tr(p.ret, calls, names)
            except Unknown:
                und += 1
                continue
            want = spec[k]
            want = want(p) if callable(want) else want
            if want is None:
                continue
            want = want if isinstance(want, (list, tuple)) else [want]
            seen.add(k)
            rep.check(group, k, got in want, where(f), "%s is %s %s instead of %s" % (k, what, got, want[0]))
    return und + (1 if not seen else 0)


def instructions(rep, P):
    f = one(P, "<impl translator::regexp::Regexp>::from_instruction")
    eq = lambda p: (["VariableEqual(it.var, it.operand)", "VariableCompare(it.var, it.op, it.operand)", "VariableCompare(it.var, Eq, it.operand)"] if kind(p, ("fld", ("arg", 1), "Variable", "op")) == "Eq"
                    else "VariableCompare(it.var, it.op, it.operand)")
    return table(rep, P, "test", f, {
        "Lookback": "Empty", "Variable": eq, "String": "String(it.s)", "Dots": "String(it.dots)",
        "Attributes": "from_multipass_attributes(it.attrs, it.quantifier, ctx)", "Class": "from_class(it.name, it.quantifier, ctx)",
        "Negate": "negate(from_instruction(it.test, ctx))", "Replace": "Capture(from_instructions(it.tests, ctx))",
        "AtBeginning": "StartAnchor", "AtEnd": "EndAnchor"},
        {"from_instruction": 2, "from_instructions": 2, "negate": 1, "from_class": 3, "from_multipass_attributes": 3}, {1: "it", 2: "ctx"})


def patterns(rep, P):
    f = one(P, "<impl translator::regexp::Regexp>::from_pattern")
    b = [g.path for n, g in P.fns.items() if n.endswith("match_pattern::boundary_anchor")]

    def side(path, n):
        k = kind(path, ("fld", ("arg", 1), n, "1" if n == "AttributesOrBoundary" else "0"))
        return {"Pre": "StartAnchor", "Post": "EndAnchor"}.get(k)

    def either(p):
        s = side(p, "AttributesOrBoundary")
        if s is None and p.ret is not None:
            fixed("AttributesOrBoundary", p)
        return s and ["Either(from_attributes(it.0, ctx), %s)" % s, "Either(%s, from_attributes(it.0, ctx))" % s]
    def fixed(n, p):
        """an anchor that does not depend on the side"""
        me = ("fld", ("arg", 1), n, "1" if n == "AttributesOrBoundary" else "0")
        got = {x[2] for x in flow.walk(p.ret) if x[0] == "agg" and x[2] in ("StartAnchor", "EndAnchor")}
        if len(got) == 1 and not any(x == me for c in p.conds for x in flow.walk(c)) and not any(x == me for x in flow.walk(p.ret)):
            rep.check("pattern", n + " side", False, where(f), "a boundary is %s on either side of the text" % got.pop())

    def bound(p):
        s = side(p, "Boundary")
        if s is None and p.ret is not None:
            fixed("Boundary", p)
        return s
    return table(rep, P, "pattern", f, {
        "Empty": "Empty", "Characters": "String(it.0)", "Boundary": bound, "Any": "Any", "Set": "CharacterClass(it.0)",
        "Attributes": "from_attributes(it.0, ctx)", "AttributesOrBoundary": either, "Group": "from_patterns(it.0, ctx)",
        "Negate": "negate(from_pattern(it.0, ctx))", "Optional": "Optional(from_pattern(it.0, ctx))", "ZeroOrMore": "ZeroOrMore(from_pattern(it.0, ctx))",
        "OneOrMore": "OneOrMore(from_pattern(it.0, ctx))", "Either": "Either(from_patterns(it.0, ctx), from_patterns(it.1, ctx))"},
        {"from_pattern": 2, "from_patterns": 2, "negate": 1, "from_attributes": 2}, {1: "it", 2: "ctx"}, inline=b)


def match_rule(rep, P):
    f = one(P, "<impl translator::regexp::Regexp>::from_match_rule")
    und = 0
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        try:
            got = tr(p.ret, {"from_patterns": 2}, {1: "pre", 2: "chars", 3: "post", 4: "ctx"})
        except Unknown:
            und += 1
            continue
        want = ["pre: from_patterns(pre, ctx)", "Capture(CaseInsensitiveString(chars))", "from_patterns(post, ctx)"]
        want[0] = want[0][5:]
        rep.check("pattern", "whole match rule", got == "cat[%s]" % " ; ".join(want), where(f), "a match rule is compiled to %s" % got)
    return und


def sequences(rep, P):
    """a list of tests or patterns is compiled to all its elements in order"""
    und = 0
    for fn, el in (("from_instructions", "from_instruction"), ("from_patterns", "from_pattern")):
        f = one(P, "<impl translator::regexp::Regexp>::" + fn)
        done = 0
        for p in flow.Flow(P, loop_bound=2).paths(f):
            if p.trunc or p.div:
                continue
            thin = thinned(p)
            if thin:
                rep.check("sequence", "%s takes all" % fn, False, where(f), "a sequence is compiled without the elements %s leaves out" % thin)
                done += 1
                continue
            n = count(p, f)
            if n is None:
                und += 1
                continue
            try:
                got = order(p.ret, el, f)
            except Unknown:
                und += 1
                continue
            done += 1
            rep.check("sequence", "%s of %d" % (fn, n), got == list(range(n)), where(f), "a sequence of %d is compiled to its elements %s" % (n, got))
        und += not done
    return und


def thinned(p):
    """the adaptor that leaves out elements of the sequence a path goes through"""
    for c in p.conds:
        if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next":
            names, o = chain(c[1])
            if o == ("arg", 1) and set(names) & {"filter", "take_while", "skip_while", "step_by", "filter_map", "dedup"}:
                return sorted(set(names) & {"filter", "take_while", "skip_while", "step_by", "filter_map", "dedup"})[0]
    return None


def count(p, f):
    """elements the argument has on this path: from the loop and its length"""
    n = None
    start = 0
    for c, v in p.conds.items():
        if c[0] == "call" and last(c[1]) == "len" and v[0] == "=":
            return v[1]
        if c[0] == "call" and last(c[1]) == "is_empty" and v == ("=", 1):
            return 0
        if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next":
            if n is None:
                n = 0
                start = base(c[1])
                if start is None:
                    return None
            n += v[1] == "+" or v[1] == "Some"
    return None if n is None else n + start


def base(t):
    """offset of the slice an iterator starts at"""
    for x in flow.walk(t):
        if x[0] == "agg" and x[2] == "RangeFrom":
            return x[4][0][1] if x[4][0][0] == "const" else None
        if x[0] == "call" and last(x[1]) in ("split_first", "skip"):
            return 1
    return 0


def order(t, el, f):
    """indices of the elements a term is built from, in order"""
    t = strip(t)
    if t[0] == "agg" and t[2] == "Empty":
        return []
    if t[0] == "agg" and t[2] == "Concat":
        return [i for o in t[4] for i in order(o, el, f)]
    if t[0] == "agg" and t[2] == "Group":
        return order(t[4][0], el, f)
    if t[0] == "call" and last(t[1]) == el:
        return [index(t[2][0])]
    raise Unknown(short(t))


def index(t):
    t = strip(t)
    if t[0] == "fld" and t[2] in ("+", "Some") and t[1][0] == "call" and last(t[1][1]) in ("next", "first", "get"):
        x = t[1]
        if last(x[1]) == "get" and x[2][1][0] == "const":
            return x[2][1][1]
        if last(x[1]) == "first":
            return 0
        n = 0
        y = x[2][0]
        while True:
            y = strip(y)
            if y[0] == "mut" and last(y[2]) == "next":
                n, y = n + 1, y[3][2][0] if y[3][0] == "call" and last(y[3][1]) == "next" else y[3]
            else:
                break
        b = base(y)
        if b is None:
            raise Unknown(short(t))
        return n + b
    if t[0] == "call" and last(t[1]) == "index" and t[2][1][0] == "const":
        return t[2][1][1]
    if t[0] == "index" and t[2][0] == "const":
        return t[2][1]
    raise Unknown(short(t))


def quantifiers(rep, P):
    """a quantifier repeats the whole class the given number of times"""
    und = 0
    for n in ("from_class", "from_multipass_attributes"):
        f = one(P, "<impl translator::regexp::Regexp>::" + n)
        q = ("arg", 2)
        seen = set()
        for p in flow.Flow(P, loop_bound=1).paths(f):
            if p.trunc or p.div:
                continue
            k = kind(p, q)
            if k in ("+", "Some"):
                inner = [v[1] for c, v in p.conds.items() if c[0] == "discr" and c[1][0] == "fld" and c[1][1] == q and v[0] == "="]
                k = inner[0] if inner else None
            elif k in ("-", "None"):
                k = "None"
            if k is None:
                und += 1
                continue
            r = strip(p.ret)
            if r[0] != "agg":
                und += 1
                continue
            names = {"RepeatExactly": "Number", "RepeatAtLeastAtMost": "Range", "OneOrMore": "OneOrMore", "Any": "None", "CharacterClass": "None", "Concat": "None", "Either": "None"}
            if r[2] not in names and r[2] not in ("RepeatAtLeast", "ZeroOrMore", "Optional"):
                und += 1
                continue
            ok = names.get(r[2]) == k
            if ok and k in ("Number", "Range"):
                bounds = [strip(x) for x in r[4][:-1]]
                ok = all(b[0] == "fld" and str(b[3]) == str(i) and b[1][0] == "fld" and b[1][1] == q for i, b in enumerate(bounds))
            if ok and k != "None":
                x = strip(r[4][-1])
                ok = x[0] == "agg" and x[2] in ("Any", "CharacterClass", "Either")
            seen.add(k)
            rep.check("quantifier", "%s %s" % (n, k), ok, where(f), "quantifier %s compiles to %s" % (k, short(r)[:80]))
        und += len({"None", "Number", "Range", "OneOrMore"} - seen)
        # the class that is repeated
        for p in flow.Flow(P, loop_bound=1).paths(f):
            if n != "from_class" or p.trunc or p.div:
                continue
            g = [x for x in flow.walk(p.ret) if x[0] == "call" and last(x[1]) == "get"]
            ok = [x for x in g if any(y == ("arg", 1) for y in flow.walk(x[2][1])) and x[2][0] == ("arg", 3)]
            if g:
                rep.check("quantifier", "class by name", len(ok) == len(g), where(f), "a class is not looked up by the name the test gives")
    return und


def attributes(rep, P):
    """each attribute contributes its characters to the set that is matched"""
    und = 0
    f = one(P, "<impl translator::regexp::Regexp>::from_multipass_attributes")
    for f, ctx in ((f, ("arg", 3)), (one(P, "<impl translator::regexp::Regexp>::from_attributes"), ("arg", 2))):
        multi = ctx == ("arg", 3)
        short_name = "test" if multi else "pattern"
        done = set()
        for p in flow.Flow(P, loop_bound=1).paths(f):
            if p.trunc or p.div:
                continue
            first = [(c, v) for c, v in p.conds.items() if c[0] == "discr" and c[1][0] == "fld" and c[1][1][0] == "call" and last(c[1][1][1]) == "next"]
            # exactly one attribute on this path
            if len(first) != 1 or first[0][1][0] != "=":
                continue
            el, k = first[0][0][1], first[0][1][1]
            if any(c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "get" and v == ("=", "-") for c, v in p.conds.items()):
                continue            # a class without members
            ext = [e for e in p.events if last(e[0]) in ("extend", "union", "insert", "append", "push")]
            if k == "Class":
                good = [x for e in ext for a in e[1][1:] for x in flow.walk(a) if x[0] == "call" and last(x[1]) == "get"]
                if not good and ext:
                    und += 1
                    continue
                ok = any(x[2][0] == ctx and any(y[0] == "fld" and y[1] == el for y in flow.walk(x[2][1])) for x in good)
                done.add(k)
                rep.check("attribute", "%s Class" % short_name, ok, where(f), "the characters of an attribute's class are not among those the %s matches" % short_name)
            elif k == "Any" and multi:
                r = p.ret
                ok = any(x[0] == "agg" and x[2] == "Any" and "Regexp" in x[1] for x in flow.walk(r))
                done.add(k)
                rep.check("attribute", "%s Any" % short_name, ok, where(f), "the attribute for any character matches no character at all")
            elif k == "ByOrder" and multi:
                done.add(k)
                rep.check("attribute", "%s ByOrder" % short_name, bool(ext) or any(x[0] == "call" and last(x[1]) not in ("default", "next", "new") and x[2] for x in flow.walk(p.ret) if not any(y == ("arg", 2) for y in flow.walk(x))),
                          where(f), "an attribute by order of definition ($w $x $y $z) matches no character at all")
        und += not done
        if multi:
            und += len({"Class", "Any"} - done)
    return und


def actions(rep, P):
    """what an action produces and which variables it changes"""
    und = 0
    f = one(P, "TranslationTarget>::from_instruction")

    def swap(p):
        for x in flow.walk(p.ret):
            if x[0] == "agg" and x[2] == "Err":
                return "Err(SwapClassNotDefined(it.name))"
        return "Swap(get(ctx, it.name))"
    lit = "Literal('')"
    und += table(rep, P, "action", f, {"String": "Literal(it.s)", "Dots": "Literal(it.dots)", "SwapClass": swap, "Replace": "Capture", "Ignore": lit,
                                       "Assignment": lit, "Increment": lit, "Decrement": lit}, {"get": 2}, {1: "it", 2: "ctx"}, what="turned into")
    g = one(P, "Effects::from_instruction")
    cons = [n for n in P.fns if "::effect::Effect::" in n and "{" not in n]
    und += table(rep, P, "effect", g, {"Assignment": "Effect(it.variable, Set(it.value))", "Increment": "Effect(it.variable, Increment)", "Decrement": "Effect(it.variable, Decrement)",
                                       "String": "None", "Dots": "None", "SwapClass": "None", "Replace": "None", "Ignore": "None"}, {}, {1: "it"}, inline=cons, what="an instruction with the effect")
    # order
    for n, el in (("TranslationTargets>::from_instructions", "from_instruction"), ("Effects::from_instructions", "from_instruction")):
        und += pipeline(rep, P, n, el, "action order")
    return und


KEEP = {"iter", "into_iter", "cloned", "copied", "map", "flat_map", "filter_map", "flatten", "collect", "chars", "by_ref", "peekable", "deref", "as_slice", "from_iter", "index", "clone", "to_vec", "concat", "join", "as_str"}
LOSE = {"rev", "skip", "skip_while", "take", "take_while", "step_by", "last", "nth", "filter", "dedup", "truncate", "sort", "sort_by", "sort_by_key", "sort_unstable", "next_back", "char_indices_rev", "fuse_take", "retain", "unique"}


FIRST = {"find_map", "first", "find", "max_by_key", "max_by", "min_by_key", "min_by", "reduce", "next", "pop"}


def chain(t):
    """names of the iterator adaptors a term went through, outermost first, and its origin"""
    out = []
    t = strip1(t)
    while t[0] in ("call", "mut") :
        if t[0] == "mut":
            out.append(last(t[2]))
            t = strip1(t[3])
            continue
        if not t[2]:
            break
        out.append(last(t[1]))
        t = strip1(t[2][0])
    return out, t


def strip1(t):
    while t[0] == "fld" and t[2] in ("+",) or t[0] in ("as",):
        t = t[1]
    return t


def pipeline(rep, P, suffix, el, group, origin=None):
    """a list is mapped element by element, in order, without losing any"""
    f = one(P, suffix)
    und = 0
    for p in flow.Flow(P, loop_bound=1).paths(f):
        if p.trunc or p.div or p.ret is None:
            continue
        names, o = chain(p.ret)
        if o[0] != "arg" or not set(names) & {"map", "flat_map", "filter_map"}:
            und += 1
            continue
        lost = set(names) & LOSE
        if not lost and not set(names) <= KEEP:
            und += 1
            continue
        rep.check(group, suffix, not lost, where(f), "the list goes through %s: elements are lost or reordered" % ", ".join(sorted(lost)))
    return und


def environment(rep, P):
    """variables count up, down and are set as written; a variable never set counts as 0"""
    und = 0
    f = one(P, "Environment::apply")
    slot = ("fld", ("arg", 2), "", "slot")
    done = set()
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        ks = [v[1] for c, v in p.conds.items() if c[0] == "discr" and c[1][0] == "fld" and c[1][3] == "kind" and v[0] == "="]
        entry = [e for e in p.events if last(e[0]) == "entry"]
        mod = [e for e in p.events if last(e[0]) == "and_modify"]
        ins = [e for e in p.events if last(e[0]) in ("or_insert", "or_insert_with", "or_default")]
        if len(ks) != 1 or len(entry) != 1 or len(ins) != 1 or len(mod) != 1 or last(ins[0][0]) != "or_insert" or mod[0][1][1][0] != "closure":
            und += 1
            continue
        k = ks[0]
        rep.check("variable", "slot of " + k, strip(entry[0][1][1])[0] == "fld" and strip(entry[0][1][1])[3] == "slot", where(f), "%s changes another variable than the one named" % k)
        val = strip(ins[0][1][1])
        isval = lambda t: strip(t)[0] == "fld" and (str(strip(t)[3]) in ("0", "value"))
        first = {"Increment": val == ("const", 1), "Decrement": val == ("const", 0), "Set": isval(val)}.get(k)
        if val[0] in ("const", "fld"):
            rep.check("variable", "first " + k, bool(first), where(f), "%s of a variable never set gives %s" % (k, short(val)))
            done.add(k)
        else:
            und += 1
        c = mod[0][1][1][1]
        if c not in P.fns:
            und += 1
            continue
        for old in (0, 1, 2, 254, 255):
            want = {"Increment": min(old + 1, 255), "Decrement": max(old - 1, 0), "Set": 7}[k]
            got = set()
            for q in flow.Flow(P).paths(P.fns[c]):
                if q.trunc or q.div:
                    continue

                def leaf(t):
                    if t == ("arg", 2):
                        return old
                    if t[0] == "fld" and t[1][0] == "arg" and t[1][1] == 1:
                        return 7
                    return None
                try:
                    if not truth.admits(list(q.conds.items()), leaf):
                        continue
                    st = [e for e in q.events if last(e[0]) == "store" and e[1][0] == ("arg", 2)]
                    w = st[-1][1][1] if st else ("x",)
                    if w[0] == "call" and last(w[1]) in ("wrapping_add", "wrapping_sub") and len(w[2]) == 2:
                        a, b = truth.value(w[2][0], leaf), truth.value(w[2][1], leaf)
                        got.add((a + b if "add" in w[1] else a - b) % 256)
                        continue
                    x = truth.value(st[-1][1][1], leaf) if st else old
                    w = st[-1][1][1] if st else ("x",)
                    if w[0] == "call" and last(w[1]) == "saturating_add":
                        x = min(x, 255)
                    got.add(x)
                except truth.NoValue:
                    got.add(None)
            if None in got or len(got) != 1:
                und += 1
                continue
            rep.check("variable", "%s of %d" % (k, old), got == {want}, "%s:%d" % (P.fns[c].file, P.fns[c].line), "%s of a variable at %d gives %s" % (k, old, sorted(got)))
    g = one(P, "Environment::get")
    for p in flow.Flow(P).paths(g):
        t = p.ret
        if t[0] == "ordefault" and t[1][0] == "call" and last(t[1][1]) == "get":
            rep.check("variable", "value", strip(t[1][2][1]) == ("arg", 2), where(g), "a test reads another variable than the one named")
        elif t[0] == "fld" or t[0] == "call" and last(t[1]) == "get":
            rep.check("variable", "value", False, where(g), "a variable never set has no value")
        else:
            und += 1
    return und


def resolved(rep, P):
    """a translation that is known already is used with the weight and the place of the match"""
    und = n = 0
    f = one(P, "<translator::translation::Translation as translator::translation::Resolve>::resolve")
    for p in flow.Flow(P, inline_pred=lambda g: "ResolvedTranslation::with_" in g.path).paths(f):
        if kind(p) != "Resolved":
            continue
        r = p.ret
        if p.trunc or p.div or r is None:
            und += 1
            continue
        if strip(r) == ("fld", ("arg", 1), "Resolved", "0"):
            rep.check("result", "known translation", False, where(f), "a known translation is used without the weight and the place of the match")
            n += 1
            continue
        if r[0] != "agg" or "offset" not in r[3] or "weight" not in r[3]:
            und += 1
            continue
        n += 1
        d = {k: strip(v) for k, v in zip(r[3], r[4])}
        for k, v in d.items():
            want = {"weight": ("arg", 3), "offset": ("arg", 4)}.get(k)
            if want:
                if v[0] in ("arg", "const", "fld", "bin") or v[0] == "call" and last(v[1]) in ("min", "max", "saturating_sub", "saturating_add"):
                    rep.check("result", "%s of a known translation" % k, v == want, where(f), "the %s of a known translation is %s, not that of the match" % (k, short(v)[:60]))
                else:
                    und += 1
            elif v[0] == "fld" and v[1][0] == "fld" and v[1][1] == ("arg", 1):
                rep.check("result", "%s of a known translation" % k, v[3] == k, where(f), "the %s of a known translation is its %s" % (k, v[3]))
            else:
                und += 1
    return und + (0 if n else 1)


def results(rep, P):
    """what a matched action yields"""
    und = 0
    f = one(P, "translation::TranslationTarget::resolve")
    und += table(rep, P, "result", f, {"Capture": "Literal(cap)", "Literal": ["it", "Literal(it.0)"], "Swap": "Literal(swap(it.0, cap))"}, {"swap": 2}, {1: "it", 2: "cap"}, what="resolved to")
    f = one(P, "Swapper::swap")
    und += pipeline(rep, P, "Swapper::swap", None, "swap order") if False else 0
    for p in flow.Flow(P).paths(f):
        names, o = chain(p.ret)
        if o != ("arg", 2) or "chars" not in names:
            und += 1
            continue
        rep.check("swap", "characters in order", not set(names) & LOSE, where(f), "swapping goes through %s" % names)
    for n, c in [(n, g) for n, g in P.fns.items() if n.startswith(f.path + "::{closure")]:
        for p in flow.Flow(P).paths(c):
            t = p.ret
            if t is not None and any(x[0] == "call" and last(x[1]) in ("then", "then_some", "take_if") for x in flow.walk(t)):
                rep.check("swap", "character", False, where(c), "a character that is not swapped can be lost")
            elif t is not None and t[0] == "agg" and t[2] == "None" and any(x == ("arg", 2) for c_ in p.conds for x in flow.walk(c_)):
                rep.check("swap", "character", False, where(c), "a character that is not swapped can be lost")
            elif t is not None and t[0] == "orelse" and t[1][0] == "call" and last(t[1][1]) == "get":
                rep.check("swap", "character", t[1][2][1] == ("arg", 2) and strip(t[2]) == ("arg", 2), where(c), "a character is not swapped for its own replacement, or lost if it has none")
            else:
                und += 1
    f = one(P, "<translator::translation::UnresolvedTranslation as translator::translation::Resolve>::resolve")
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div or p.ret[0] != "agg":
            und += 1
            continue
        r = dict(zip(p.ret[3], p.ret[4]))
        for n in ("precedence", "stage", "effects", "origin"):
            rep.check("result", n, strip(r.get(n, ("x",))) == ("fld", ("arg", 1), "", n) or same(r.get(n), n), where(f), "the %s of a matched action is %s" % (n, short(r.get(n, ("missing",)))))
        rep.check("result", "input", strip(r["input"]) == ("arg", 2), where(f), "the input of a matched action is not the captured text")
        rep.check("result", "weight", strip(r["weight"]) == ("arg", 3), where(f), "the weight of a matched action is not that of the match")
        rep.check("result", "offset", strip(r["offset"]) == ("arg", 4), where(f), "the offset of a matched action is not that of the match")
        n = r["length"]
        if n[0] == "call" and last(n[1]) == "count":
            names, o = chain(n)
            rep.check("result", "length", o == ("arg", 2) and "chars" in names, where(f), "the length of a matched action is not the number of characters of the captured text")
        elif n[0] == "call" and last(n[1]) == "len" and strip(n[2][0]) == ("arg", 2):
            rep.check("result", "length", False, where(f), "the length of a matched action is counted in bytes")
        else:
            und += 1
        names, o = chain(r["output"])
        if o[0] == "fld" and o[3] == "output":
            rep.check("result", "output order", not set(names) & LOSE, where(f), "the output of a matched action goes through %s" % names)
        else:
            und += 1
        caps = [x for x in flow.walk(r["output"]) if x[0] == "closure"]
        for c in caps:
            for q in flow.Flow(P).paths(P.fns[c[1]]):
                for e in q.events:
                    if last(e[0]) == "resolve":
                        rep.check("result", "captured text", any(x[0] == "fld" and x[1] == ("arg", 1) for x in flow.walk(e[1][1])), where(f), "the captured text is not what is passed on")
    und += resolved(rep, P)
    g = one(P, "translation::UnresolvedTranslation::new")
    for p in flow.Flow(P).paths(g):
        if p.ret is None or p.ret[0] != "agg":
            und += 1
            continue
        r = {n: strip(o) for n, o in zip(p.ret[3], p.ret[4])}
        want = {"output": 1, "precedence": 2, "stage": 3, "effects": 4, "origin": 5}
        for n, i in want.items():
            if n in r and r[n][0] == "arg":
                rep.check("result", "new " + n, r[n] == ("arg", i), where(g), "the %s of an action is taken from argument %d" % (n, r[n][1]))
            else:
                und += 1
    return und


def same(t, n):
    t = strip(t) if t else ("x",)
    return t[0] == "fld" and t[1] == ("arg", 1) and t[3] == n


def insertion(rep, P):
    """a test is compiled over the classes of its stage, with the whole test replaced when nothing is bracketed"""
    und = 0
    f = one(P, "ContextPatternsBuilder::insert")
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        ft = [e for e in p.events if last(e[0]) in ("from_test", "from_instructions")]
        if not ft:
            continue
        k = kind(p, ("arg", 5))
        cl = ft[0][1][1]
        cl = last(cl[1]) if cl[0] == "call" else cl[3] if cl[0] == "fld" else None
        if k is None or cl not in ("character_classes", "dots_classes"):
            und += 1
        else:
            rep.check("stage classes", k, cl == ("character_classes" if k in ("Pre", "Main") else "dots_classes"), where(f), "a test of stage %s looks its classes up among %s" % (k, cl))
        t = strip(ft[0][1][0])
        if t[0] == "call" and last(t[1]) == "add_implicit_replace":
            rep.check("stage classes", "whole test", strip(t[2][0]) == ("arg", 2), where(f), "another test is compiled")
        elif t == ("arg", 2):
            rep.check("stage classes", "whole test", False, where(f), "a test without brackets replaces nothing")
        else:
            und += 1
        cp = [e for e in p.events if last(e[0]) == "compile_with_payload"]
        pu = [e for e in p.events if last(e[0]) == "push"]
        if cp and kind_ok(p):
            rep.check("stage classes", "kept", len(pu) == 1 and any(x[0] == "call" and last(x[1]) == "compile_with_payload" for x in flow.walk(pu[0][1][1])), where(f), "a compiled test is not kept")
    f = one(P, "Test::add_implicit_replace")
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div or p.ret is None:
            continue
        any_ = [(c, v) for c, v in p.conds.items() if c[0] == "call" and last(c[1]) == "any"]
        if len(any_) != 1 or any_[0][1][0] != "=":
            und += 1
            continue
        r = strip(p.ret)
        wraps = any(x[0] == "agg" and x[2] == "Replace" for x in flow.walk(r))
        rep.check("whole test", "bracketed" if any_[0][1][1] else "unbracketed", wraps != bool(any_[0][1][1]), where(f), "a test %s brackets is %s" % ("with" if any_[0][1][1] else "without", "wrapped" if wraps else "left alone"))
        cl = [x for x in flow.walk(any_[0][0]) if x[0] == "closure"]
        for c in cl:
            for q in flow.Flow(P).paths(P.fns[c[1]]):
                v = [v for t, v in q.conds.items() if t[0] == "discr"]
                if len(v) == 1 and q.ret is not None and q.ret[0] == "const":
                    rep.check("whole test", "bracket", bool(q.ret[1]) == (v[0] == ("=", "Replace")), where(f), "brackets are recognised by another kind of test")
    for n, lastarg in (("ContextPatterns::find", None), ("MatchPatterns::find", None)):
        g = one(P, n)
        for p in flow.Flow(P).paths(g):
            names, o = chain(p.ret) if p.ret else ([], ("x",))
            if o[0] == "fld" and o[3] == "regexps" and set(names) & FIRST:
                rep.check("find", n, False, where(g), "of the patterns that match only one is handed on (%s)" % sorted(set(names) & FIRST)[0])
            elif o[0] == "fld" and o[3] == "regexps" and set(names) & {"flat_map", "map", "filter_map"}:
                rep.check("find", n, not set(names) & LOSE, where(g), "candidates go through %s" % names)
            else:
                und += 1
        for m, c in [(m, c) for m, c in P.fns.items() if m.startswith(g.path + "::{closure")]:
            for p in flow.Flow(P).paths(c):
                e = [e for e in p.events if last(e[0]) in ("find_anchored", "find")]
                if len(e) != 1:
                    und += 1
                    continue
                a = e[0][1]
                if last(e[0][0]) == "find":
                    rep.check("find", n + " anchors", False, where(c), "the start of the input is not passed on")
                    continue
                at = strip(a[3])
                ok = a[0] == ("arg", 2) and at[0] == "fld" and at[1] == ("arg", 1) and at[3] == "at_start" and strip(a[1])[0] == "fld"
                if at[0] in ("const", "fld"):
                    rep.check("find", n + " arguments", ok, where(c), "patterns are searched in %s" % ", ".join(short(x) for x in a[1:]))
                else:
                    und += 1
    f = one(P, "MatchPatternsBuilder::insert")
    for p in flow.Flow(P).paths(f):
        e = [e for e in p.events if last(e[0]) == "from_match_rule"]
        if p.trunc or len(e) != 1:
            und += 1
            continue
        rep.check("match rule", "operands", [strip(a) for a in e[0][1]] == [("arg", i) for i in (2, 3, 4, 7)], where(f), "a match rule is compiled from other operands")
        r = [x for x in p.events if last(x[0]) == "compile_with_payload"]
        pay = r[0][1][1] if r else ("x",)
        n = [x for x in flow.walk(pay) if x[0] == "call" and last(x[1]) == "new" and len(x[2]) == 5]
        if n:
            a = [strip(x) for x in n[0][2]]
            rep.check("match rule", "result", a[0] == ("arg", 3) and a[1] == ("arg", 5) and a[4] == ("arg", 6), where(f), "a match rule yields other text than it says")
        else:
            und += 1
    return und


def kind_ok(p):
    r = p.ret
    return r is not None and r[0] == "agg" and r[2] == "Ok"


PARTS = [instructions, patterns, match_rule, sequences, quantifiers, attributes, actions, environment, results, insertion]
