"""Which field of a value holds what its builder was given: read from the setters, not from the names of the fields."""
import flow
from terms import last, short
from seq import stages, Unknown


def fields_of(t, root):
    """('a', 'b') for root.a.b; positions of wrapped values are left out"""
    out = []
    while t[0] == "fld":
        if not t[3].isdigit():
            out.append(t[3])
        t = t[1]
    return tuple(out[::-1]) if t == root else None


def fields_key(t):
    while t[0] == "mut":
        t = t[3]
    return t


def payload(t):
    if t[0] == "agg" and t[2] == "Some":
        return t[4][0]
    return None


def kind(P, v):
    """how a stored value comes from the argument"""
    x = payload(v)
    inner = x if x is not None else v
    if inner[0] == "call" and last(inner[1]) == "make_translation" and len(inner[2]) == 2:
        return ("translation", inner[2][0], inner[2][1]) if x is not None else None
    if inner[0] == "call" and last(inner[1]) == "new" and "ResolvedTranslation" in inner[1]:
        a = inner[2]
        if x is None or a[0] != ("str", "") or a[2] != ("const", 1) or not (a[3][0] == "agg" and a[3][2] == "Main"):
            return ("other",)
        return ("translation", a[1], a[4])
    if inner[0] == "tuple" and x is not None and len(inner[1]) == 2:
        return ("translation", inner[1][0], inner[1][1])
    if x is not None:
        return ("some", x)
    if v[0] == "call" and last(v[1]) in ("next", "last", "nth", "max", "min") and v[2] and [o for o, _ in stages(v[2][0])[1]] == ["chars"]:
        return ("part of the characters of", stages(v[2][0])[0])
    base, ops = stages(v)
    if [o for o, _ in ops] == ["chars"]:
        return ("chars", base)
    if [o for o, _ in ops][:1] == ["chars"] and ops[1:] and all(o in ("take", "skip", "filter", "take_while", "skip_while", "step_by", "rev") for o, _ in ops[1:]):
        return ("part of the characters of", base) if any(o != "rev" for o, _ in ops[1:]) else ("chars", base)
    if v[0] == "const":
        return ("const", v[1])
    if not ops:
        return ("plain", base)
    if any(o in ("take", "skip", "filter", "take_while", "skip_while", "step_by") for o, _ in ops):
        return ("part of the characters of", base)
    return None


def setter(P, f, recv=None):
    """[(conditions, field, how, value kind)] of a setter; None if it is something else"""
    out = []
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            return None
        cleared = set()
        for e in p.events:
            n = last(e[0])
            if n == "clear" and len(e[1]) == 1:
                cleared.add(fields_key(e[1][0]))
                continue
            if n in ("get_or_insert", "get_or_insert_with") and len(e[1]) == 2:
                v = e[1][1]
                if v[0] == "closure":
                    continue
                out.append((p.conds, e[1][0], "once", kind(P, ("agg", "std::option::Option", "Some", ("0",), (v,)))))
                continue
            if e[0] == "store":
                place, v = e[1]
            elif n in ("extend", "insert") and len(e[1]) == 2:
                place, v = e[1]
            elif n == "insert" and len(e[1]) == 3:
                out.append((p.conds, e[1][0], "entry", ("entry",) + tuple(e[1][1:])))
                continue
            else:
                continue
            out.append((p.conds, place, "set" if e[0] == "store" or fields_key(place) in cleared else "add", kind(P, v)))
    return out


def roles(rep, P, rule, builder, spec, recv=None):
    """checks the setters of a builder.  spec: method -> (how, kind, argument(s)) ; returns ({field: role}, undecided).
    recv(place) -> field name for builders whose values lie elsewhere than in self"""
    und = 0
    out = {}
    for m, (how, want) in spec.items():
        f = P.fns.get(builder + "::" + m)
        if f is None:
            und += 1
            continue
        W = "%s:%d" % (f.file, f.line)
        st = setter(P, f)
        if st is None:
            und += 1
            continue
        got = []
        for conds, place, h, k in st:
            fs = recv(place) if recv else fields_of(place, ("arg", 1))
            if fs:
                got.append((fs if isinstance(fs, str) else fs[-1], h, k))
        main = [g for g in got if g[2] is not None and g[2][0] != "const"]
        if not got:
            # nothing is kept at all, or by means not followed
            calls = any(e[0] != "store" and last(e[0]) not in ("new", "chars", "from_iter", "collect", "make_translation", "clone") for p in flow.Flow(P).paths(f) for e in p.events)
            if calls:
                und += 1
            else:
                rep.check(rule, m + " is kept", False, W, "what %s is given is not kept" % m)
            continue
        if not main:
            und += 1
            continue
        names = {g[0] for g in main}
        if len(names) != 1:
            und += 1
            continue
        name = names.pop()
        if name in out:
            rep.check(rule, m + " has its own place", False, W, "%s overwrites what %s was given" % (m, out[name]))
            continue
        out[name] = m
        rep.check(rule, m + " has its own place", True, W, "")
        for g in main:
            k = g[2]
            if k[0] == "other":
                rep.check(rule, m + " is kept as given", False, W, "%s does not keep its dots as an indicator" % m)
            elif k[0].startswith("part") and want[0] in ("chars", "plain"):
                rep.check(rule, m + " is kept as given", False, W, "%s keeps only %s what it was given" % (m, k[0]))
                continue
            elif k[0] == want[0]:
                rep.check(rule, m + " is kept as given", k[1:1 + len(want) - 1] == tuple(want[1:]), W, "%s keeps %s" % (m, short(k[1])[:60] if len(k) > 1 else k))
            else:
                und += 1
                continue
            rep.check(rule, m + (" adds to what was given" if how == "add" else " is kept"), g[1] == how, W,
                      "%s %s" % (m, "counts only the first time" if g[1] == "once" else "replaces what an earlier rule gave" if how == "add" else "adds to what an earlier rule gave"))
        if how == "set" and recv is None:
            for p in flow.Flow(P).paths(f):
                if p.div or p.trunc or not p.conds:
                    continue
                mine = [e for e in p.events if last(e[0]) in ("store", "insert", "extend", "get_or_insert", "get_or_insert_with", "replace") and e[1] and name in (fields_of(fields_key(e[1][0]), ("arg", 1)) or ())]
                own = all(any(x == ("arg", 1) for x in flow.walk(c)) and not any(x[0] == "arg" and x[1] > 1 for x in flow.walk(c)) for c in p.conds)
                if own:
                    rep.check(rule, m + " counts whatever was given before", bool(mine), W, "%s is dropped depending on what an earlier rule gave" % m)
    return out, und


def product(P, build, rl, prefix="self"):
    """{'self.<field>': 'self.<role>'} of what build() makes from the builder's fields"""
    f = P.fns.get(build)
    if f is None:
        return None
    out = None
    for p in flow.Flow(P, max_paths=4000).paths(f):
        if p.trunc or p.div:
            continue
        x = payload(p.ret)
        if x is None:
            continue
        while x[0] == "upd":
            x = x[1]
        if x[0] == "fld" and fields_of(x, ("arg", 1)) == ():
            m = {fn: fn for fn in rl}
        elif x[0] == "agg":
            m = {}
            for n, v in zip(x[3], x[4]):
                if v[0] == "fld" and v[2] in ("+", "Some"):
                    v = v[1]
                fs = fields_of(v, ("arg", 1))
                if fs:
                    m[n] = fs[-1]
        else:
            return None
        r = {prefix + "." + n: prefix + "." + rl[bf] for n, bf in m.items() if bf in rl}
        if out is not None and out != r:
            return None
        out = r
    return out
