"""Sequences as terms: what a vector contains, what an iterator runs over, which elements a predicate lets through."""
import flow
from terms import last

PLAIN = ("iter", "into_iter", "cloned", "copied", "collect", "as_slice", "as_ref", "to_vec", "clone", "deref", "borrow", "from_iter", "into", "from", "by_ref",
         "as_str", "to_string", "to_owned", "iter_mut", "into_boxed_slice", "fuse")
STEP = ("filter", "map", "rev", "skip", "take", "step_by", "filter_map", "flat_map", "flatten", "chain", "skip_while", "take_while", "zip", "enumerate", "inspect",
        "chars", "partition", "dedup", "peekable", "map_while", "drain", "char_indices")


class Unknown(Exception):
    pass


def events(p):
    return {e[2]: e for e in p.events}


def stages(t, ev=None):
    """(base, [(op, args)]) of an iterator chain, innermost step first"""
    ops = []
    while True:
        if t[0] == "call" and t[2] and last(t[1]) in PLAIN:
            t = t[2][0]
        elif t[0] == "call" and t[2] and last(t[1]) in STEP:
            ops.append((last(t[1]), t[2][1:]))
            t = t[2][0]
        elif t[0] == "mut" and last(t[2]) == "reverse":
            ops.append(("rev", ()))
            t = t[3]
        else:
            return t, ops[::-1]


def _chained(x, ev):
    while x[0] == "call" and x[2] and last(x[1]) in PLAIN:
        x = x[2][0]
    if x[0] == "call" and last(x[1]) == "once" and "iter" in x[1]:
        return [("one", x[2][0])]
    if x[0] == "call" and last(x[1]) in ("map", "filter", "filter_map", "flat_map", "take", "skip", "rev", "zip", "enumerate"):
        raise Unknown("chained with " + last(x[1]))
    return items(x, ev) if x[0] in ("array", "mut") or x[0] == "call" else [("all", x)]


def items(t, ev):
    """the elements put into a fresh vector, in order: ('one', x) or ('all', sequence)"""
    out = []
    rev = False
    while True:
        if t[0] == "mut":
            n, args = last(t[2]), ev[t[1]][1]
            if n == "push" or n == "push_back":
                out.append(("one", args[1]))
            elif n in ("extend", "append", "extend_from_slice"):
                out.append(("all", args[1]))
            elif n == "insert" and len(args) == 3 and args[1] == ("const", 0):
                out.append(("front", args[2]))
            elif n == "reverse":
                if out:
                    raise Unknown("reversed in the middle")
                rev = not rev
            elif n in ("reserve", "shrink_to_fit"):
                pass
            else:
                raise Unknown("vector changed by " + n)
            t = t[3]
        elif t[0] == "call" and t[2] and last(t[1]) in PLAIN and not out:
            t = t[2][0]
        elif t[0] == "call" and last(t[1]) == "chain" and len(t[2]) == 2 and not out:
            for x in t[2][::-1]:
                out += _chained(x, ev)[::-1]
            break
        elif t[0] == "call" and last(t[1]) == "rev" and not out:
            rev = not rev
            t = t[2][0]
        elif t[0] == "call" and last(t[1]) in ("new", "with_capacity", "default") or t[0] == "default":
            break
        elif t[0] == "array" or t[0] == "call" and last(t[1]) in ("into_vec", "box_assume_init_into_vec_unsafe") and t[2][0][0] == "array":
            a = t if t[0] == "array" else t[2][0]
            out += [("one", x) for x in a[1][::-1]]
            break
        elif not out:
            raise Unknown("not a vector built here: " + t[0])
        else:
            out.append(("all", t))
            break
    out = out[::-1]
    while any(k == "front" for k, _ in out):
        i = max(j for j, (k, _) in enumerate(out) if k == "front")
        x = out.pop(i)
        # an insertion at the front goes before everything inserted earlier
        out.insert(0, ("one", x[1]))
    return out[::-1] if rev else out


def element(t):
    """the loop element behind next(): its iterator term"""
    if t[0] == "fld" and t[2] in ("Some", "+") and t[1][0] == "call" and last(t[1][1]) in ("next", "next_back"):
        return t[1]
    return None


def loop_base(t):
    """the collection a next() runs over, with the number of elements taken before"""
    n = 0
    if last(t[1]) == "next_back":
        raise Unknown("next_back")
    t = t[2][0]
    while t[0] == "mut" and last(t[2]) == "next":
        t, n = t[3], n + 1
    return t, n


def predicate(P, fn, subject, variants, fl=None, caps=None):
    """which variants of the subject a predicate lets through.
    fn: closure or function term; subject: function from the element term to the discriminated term.
    Returns {variant: 'yes' | 'no' | [(conds, answer)]}; answer is 0, 1 or a term."""
    fl = fl or flow.Flow(P)
    if fn[0] == "closure":
        g, el = P.fns[fn[1]], ("arg", 2)
    elif fn[0] == "fn" and fn[1] in P.fns:
        g, el = P.fns[fn[1]], ("arg", 1)
    else:
        raise Unknown("predicate")
    d = ("discr", subject(el))
    res = {v: [] for v in variants}
    for p in fl.paths(g, [fn, el] if fn[0] == "closure" else None):
        if p.trunc or p.div:
            raise Unknown("predicate not followed")
        c = p.conds.get(d)
        rest = [(k, x) for k, x in p.conds.items() if k != d]
        for v in variants:
            if c is None or c[0] == "=" and c[1] == v or c[0] == "!=" and v not in c[1]:
                res[v].append((rest, p.ret[1] if p.ret[0] == "const" else p.ret))
    return res


def apply(P, fn, args, fl=None):
    """[(conditions, result, events)] of calling a closure or function term; followed only where it always returns"""
    fl = fl or flow.Flow(P)
    if fn[0] == "closure":
        g, a = P.fns.get(fn[1]), [fn] + list(args)
    elif fn[0] == "fn":
        g, a = P.fns.get(fn[1]), list(args)
        if g is None:
            if last(fn[1]) in ("Ok", "Some", "Err"):
                return [({}, ("agg", "", last(fn[1]), ("0",), (args[0],)), [])]
            return [({}, ("call", fn[1], tuple(args), 0), [])]
    else:
        raise Unknown("applied: " + fn[0])
    if g is None:
        raise Unknown("no body: " + fn[1])
    out = []
    for p in fl.paths(g, a):
        if p.trunc or p.div:
            raise Unknown("not followed: " + fn[1])
        out.append((dict(p.conds), p.ret, p.events))
    return out


def value(P, t, fl=None):
    """the error or payload term with the closure that makes it applied, when that takes one path"""
    if t[0] == "errof":
        r = apply(P, t[1], [t[2]], fl)
        if len(r) == 1:
            return r[0][1]
    return t


def outcomes(P, t, fl=None, depth=0):
    """[(conditions, 'ok' | 'err', value)] a Result or Option term stands for"""
    if depth > 12:
        raise Unknown("deep result")
    k = t[0]
    sub = lambda x: outcomes(P, x, fl, depth + 1)
    if k == "agg" and t[2] in ("Ok", "Some"):
        return [({}, "ok", value(P, t[4][0], fl))]
    if k == "agg" and t[2] in ("Err", "None"):
        return [({}, "err", value(P, t[4][0], fl) if t[4] else None)]
    if k == "map":
        out = []
        for c, o, v in sub(t[1]):
            if o == "err":
                out.append((c, o, v))
            else:
                out += [({**c, **c2}, "ok", r) for c2, r, _ in apply(P, t[2], [v], fl)]
        return out
    if k == "maperr":
        out = []
        for c, o, v in sub(t[1]):
            if o == "ok":
                out.append((c, o, v))
            else:
                out += [({**c, **c2}, "err", r) for c2, r, _ in apply(P, t[2], [v], fl)]
        return out
    if k == "okor":
        return [(c, o, v if o == "ok" else t[2]) for c, o, v in sub(t[1])]
    if k == "resid":
        return [(c, o, v) for c, o, v in sub(t[1]) if o == "err"]
    if k == "call" and last(t[1]) == "and_then" and len(t[2]) == 2:
        out = []
        for c, o, v in sub(t[2][0]):
            if o == "err":
                out.append((c, o, v))
            else:
                for c2, r, _ in apply(P, t[2][1], [v], fl):
                    out += [({**c, **c2, **c3}, o3, v3) for c3, o3, v3 in sub(r)]
        return out
    if k == "call":
        d = ("discr", t)
        return [({d: ("=", "+")}, "ok", ("fld", t, "+", "0")), ({d: ("=", "-")}, "err", ("fld", t, "Err", "0"))]
    raise Unknown("result " + k)


def results(P, p, fl=None):
    """outcomes of a path, its own conditions included"""
    out = []
    for c, o, v in outcomes(P, p.ret, fl):
        if any(k in p.conds and p.conds[k][0] == "=" and p.conds[k] != x and x[0] == "=" for k, x in c.items()):
            continue
        out.append(({**p.conds, **c}, o, v))
    return out


class Collected:
    """a function that turns every element of a sequence into a value or an error:
    source, steps before (filters), and per element the outcomes; flat: values and errors are lists that are joined"""

    def __init__(self):
        self.src = self.steps = self.elem = None
        self.outcomes = []
        self.flat_ok = self.flat_err = False
        self.bad = []


def collector(P, f, fl=None):
    fl = fl or flow.Flow(P, loop_bound=2)
    C = Collected()
    res = []
    for p in fl.paths(f):
        if p.trunc or p.div:
            raise Unknown("not followed: " + f.path)
        ev = events(p)
        for c, o, v in outcomes(P, p.ret, fl):
            res.append((p, ev, {**p.conds, **c}, o, v))
    parts = [x for x in res if x[4] is not None and _partition(x[4])]
    if parts and len(parts) == len(res):
        return _by_partition(P, C, res, fl)
    for p, ev, conds, o, v in res:
        for k, x in conds.items():
            if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) in ("collect", "try_collect", "try_for_each", "try_fold") and x == ("=", "-"):
                C.bad.append("the first error ends the reading of the rest")
                base, ops = stages(k[1])
                if ops and ops[-1][0] == "map":
                    C.src, C.steps, C.elem = base, ops[:-1], ("arg", 2)
                    for c, r, _ in apply(P, ops[-1][1][0], [C.elem], fl):
                        C.outcomes += [({**c, **c2}, o2, v2) for c2, o2, v2 in outcomes(P, r, fl)]
                    return C
    return _by_loop(P, C, res, fl)


def _partition(v):
    base, ops = stages(v)
    return base[0] == "fld" and base[1][0] == "call" and last(base[1][1]) == "partition"


def _emptiness(conds):
    """(vector, 1 if it is empty) conditions"""
    out = []
    for k, x in conds.items():
        if k[0] == "call" and last(k[1]) == "is_empty" and x[0] == "=":
            out.append((k[2][0], x[1]))
        if k[0] == "bin" and k[1] in ("Eq", "Gt", "Ne") and k[3] == ("const", 0) and k[2][0] in ("call", "un") and x[0] == "=":
            t = k[2][2][0] if k[2][0] == "call" and last(k[2][1]) == "len" else None
            if t:
                out.append((t, int((x[1] == 1) == (k[1] == "Eq"))))
    return out


def feasible(conds):
    """no condition says that a vector is empty into which something was pushed"""
    for vec, empty in _emptiness(conds):
        t = vec
        while t[0] == "mut":
            if empty and last(t[2]) in ("push", "push_back", "push_str", "insert"):
                return False
            t = t[3]
    return True


def _asks_ok(P, f):
    """a closure that asks whether its argument is a success"""
    if f[0] != "closure" or f[1] not in P.fns or f[2]:
        return False
    g = P.fns[f[1]]
    rets = [p.ret for p in flow.Flow(P).paths(g)]
    return len(rets) == 1 and rets[0][0] == "isv" and rets[0][2] in ("Ok", "Some") and rets[0][1] == ("arg", 2)


def _by_partition(P, C, res, fl):
    part = None
    for p, ev, conds, o, v in res:
        base, ops = stages(v)
        part = part or base[1]
        if base[1] != part:
            raise Unknown("two partitions")
        pred = part[2][1]
        if not (pred[0] == "fn" and last(pred[1]) in ("is_ok", "is_some") or _asks_ok(P, pred)):
            raise Unknown("partition by something else")
        side = base[3]
        if (side == "0") != (o == "ok"):
            C.bad.append("the %s result holds the %s" % (o, "values" if side == "0" else "errors"))
        if len(ops) != 1 or ops[0][0] not in ("map", "flat_map", "filter_map"):
            if [x for x, _ in ops] == ["flatten"] and o == "ok":
                continue                            # flattening results keeps the values
            if [x for x, _ in ops] == ["map", "flatten"]:
                ops = [("flat_map", ops[0][1])]
            elif any(x in ("take", "skip", "step_by", "filter", "rev", "dedup") for x, _ in ops):
                C.bad.append("not all %s are kept: %s" % ("rules" if o == "ok" else "errors", ops[-1][0]))
                continue
            else:
                raise Unknown("after partition: " + ",".join(x for x, _ in ops))
        name = last(ops[0][1][0][1]) if ops[0][1][0][0] == "fn" else "?"
        if name not in (("unwrap", "expect", "ok", "unwrap_or_default") if o == "ok" else ("unwrap_err", "err", "expect_err")):
            raise Unknown("unwrapped by " + name)
        if o == "ok":
            C.flat_ok = ops[0][0] == "flat_map"
        else:
            C.flat_err = ops[0][0] == "flat_map"
        decided = False
        for vec, empty in _emptiness(conds):
            b, _ = stages(vec)
            if b[0] == "fld" and b[1] == part and b[3] == "1":
                decided = True
                if empty != (o == "ok"):
                    C.bad.append("a table with errors is taken as good" if o == "ok" else "errors given although there are none")
        if not decided:
            if o == "ok":
                C.bad.append("the rules are returned without looking for errors")
            else:
                raise Unknown("when errors are given")
    base, ops = stages(part[2][0])
    if not ops or ops[-1][0] != "map":
        raise Unknown("what is partitioned")
    C.src, C.steps = base, ops[:-1]
    C.elem = ("arg", 2)
    for c, r, _ in apply(P, ops[-1][1][0], [C.elem], fl):
        for c2, o, v in outcomes(P, r, fl):
            C.outcomes.append(({**c, **c2}, o, v))
    return C


def _elements(p, conds):
    """next() calls of the loop in order, with their outcome"""
    out = []
    for e in p.events:
        if last(e[0]) == "next":
            t = ("call", e[0], tuple(e[1]), e[2])
            x = conds.get(("discr", t))
            out.append((t, x[1] if x else None))
    return out


def _rw(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(_rw(x, a, b) for x in t)
    return t


def _by_loop(P, C, res, fl):
    C.elem = ("elem",)
    seen = 0
    for p, ev, conds, o, v in res:
        nx = _elements(p, conds)
        if not nx:
            raise Unknown("neither a partition nor a loop")
        its = [t for t, x in nx if x == "+"]
        if nx[-1][1] == "+":
            # left inside the loop
            if o == "err":
                C.bad.append("the first error ends the reading of the rest")
            else:
                C.bad.append("the reading ends before the last element")
            continue
        base, _ = loop_base(its[0] if its else nx[0][0])
        b, ops = stages(base)
        if C.src is None:
            C.src, C.steps = b, ops
        got = items(v, ev)
        infeasible = False
        errs = None
        for vec, empty in _emptiness(conds):
            try:
                n = len(items(vec, ev))
            except Unknown:
                continue
            if all(k == "one" for k, _ in items(vec, ev)) and (n == 0) != bool(empty):
                infeasible = True
            if (n == 0) != bool(empty) and empty:
                infeasible = True
            errs = vec
        if infeasible:
            continue
        if len(its) == 1:
            es = [("fld", its[0], v, "0") for v in ("+", "Some")]
            rw = lambda t: _rw(_rw(t, es[0], C.elem), es[1], C.elem)
            c = {rw(k): x for k, x in conds.items() if rw(k) != k}
            vals = [(k, rw(x)) for k, x in got]
            errs_it = items(errs, ev) if errs is not None else []
            if o == "ok" and errs_it:
                C.bad.append("a table with errors is taken as good")
            if not vals:
                C.outcomes.append((c, "skip", None))
            elif len(vals) == 1:
                C.outcomes.append((c, o, vals[0][1]))
                if o == "ok":
                    C.flat_ok = vals[0][0] == "all"
                else:
                    C.flat_err = vals[0][0] == "all"
            else:
                C.bad.append("%d results for one element" % len(vals))
            seen += 1
        if len(its) == 2:
            order = []
            for _, x in got:
                for i, t in enumerate(its):
                    if t in list(flow.walk(x)):
                        order.append(i)
                        break
            if order != sorted(order):
                C.bad.append("results are not kept in the order of the elements")
    if not seen:
        raise Unknown("no turn of the loop seen")
    return C
