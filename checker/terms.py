"""Small helpers over provenance terms."""
import flow


def last(n):
    return flow.last(n)


def src(t):
    """the call or other origin behind success payloads, defaults, error conversions"""
    while True:
        if t[0] == "fld" and t[2] in ("+", "Ok", "Some", "Continue"):
            t = t[1]
        elif t[0] in ("ordefault", "maperr", "okor", "ok", "as", "orelse"):
            t = t[1]
        elif t[0] == "resid":
            t = t[1]
        else:
            return t


def callee(t):
    t = src(t)
    return t[1] if t[0] == "call" else None


def calls_in(t):
    return [x for x in flow.walk(t) if x[0] == "call"]


def mentions(P, t, pred, depth=0, seen=None):
    """does the term, or the body of a closure or function in it, contain a call with pred(name)?"""
    seen = seen if seen is not None else set()
    for x in flow.walk(t):
        if x[0] == "call" and pred(x[1]):
            return True
        if x[0] in ("closure", "fn") and x[1] in P.fns and x[1] not in seen:
            seen.add(x[1])
            inner = [g for g in P.fns if g.startswith(x[1] + "::{closure")]
            for c in [c for g in [x[1]] + inner for c in P.fns[g].calls()]:
                n = c.name() if callable(c.name) else c.name
                if n and pred(n):
                    return True
                if n in P.fns and n not in seen and n not in P.baseline:
                    seen.add(n)
                    if mentions(P, ("fn", n), pred, depth + 1, seen - {n}):
                        return True
    return False


def field_of(t):
    """('fld', base, variant, name) -> (variant, name) through payload wrappers"""
    if t[0] == "fld":
        return t[2], t[3]
    return None


def short(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == "fld" and t[2] == "+":
        return short(t[1], d) + "?"
    if t[0] == "fld":
        return short(t[1], d) + "." + str(t[3])
    if t[0] == "arg":
        return "arg%d" % t[1]
    if d > 6:
        return "…"
    if t[0] == "call":
        return last(t[1]) + "(" + ",".join(short(a, d + 1) for a in t[2]) + ")"
    if t[0] == "agg":
        return t[2] + ("{" + ",".join("%s:%s" % (n, short(o, d + 1)) for n, o in zip(t[3], t[4])) + "}" if t[4] else "")
    if t[0] == "set":
        return "{" + "|".join(sorted(t[1])) + ("|…" if t[2] else "") + "}"
    if t[0] in ("str", "char", "const"):
        return repr(t[1])
    if t[0] in ("tuple", "array"):
        return "(" + ",".join(short(o, d + 1) for o in t[1]) + ")"
    if t[0] == "bin":
        return "%s(%s,%s)" % (t[1], short(t[2], d + 1), short(t[3], d + 1))
    if t[0] == "closure":
        return "closure"
    if t[0] == "mut":
        return "mut:" + last(t[2]) + "(" + short(t[3], d + 1) + ")"
    if not isinstance(t[0], str):
        return "(" + ",".join(short(x, d + 1) for x in t) + ")"
    return t[0] + "(" + ",".join(short(x, d + 1) for x in t[1:] if isinstance(x, tuple)) + ")"


def entries(P, pred):
    """the functions of the recorded baseline from which a call with pred(name) is reached without passing through another of
    them: helpers that were extracted are judged where they are used, with the arguments they are given"""
    callers, hit = {}, set()
    for f in P.fns.values():
        if "::tests::" in f.path:
            continue
        at = f.path.split("::{closure")[0]
        for c in f.calls():
            n = c.name() if callable(c.name) else c.name
            if not n:
                continue
            callers.setdefault(n, set()).add(at)
            if pred(n):
                hit.add(at)
    out, seen, todo = set(), set(), list(hit)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in P.baseline or not callers.get(n, set()) - {n}:
            out.add(n)
        else:
            todo += callers[n]
    return [P.fns[n] for n in sorted(out) if n in P.fns]
