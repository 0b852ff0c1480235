"""C14, fourth part: the bookkeeping of the matcher, the rules a pass is made of, and what an action replaces."""
import flow
from terms import last, short
from rules.c12 import one, where
from rules.c14b import chain, strip, kind

BITS = 64


class Stuck(Exception):
    pass


class Outside(Exception):
    pass


def word(t, words, idx):
    """value of a term over machine words"""
    if t == ("arg", 2):
        return idx
    if t[0] == "const":
        return t[1]
    if t[0] == "bin":
        a, b = word(t[2], words, idx), word(t[3], words, idx)
        o = t[1]
        if o in ("Div", "Rem"):
            if not b:
                raise Outside("division by zero")
            return a // b if o == "Div" else a % b
        if o in ("Shl", "Shr"):
            if not 0 <= b < BITS:
                raise Outside("a shift by %d" % b)
            return a << b & 2 ** BITS - 1 if o == "Shl" else a >> b
        if o in ("BitAnd", "BitOr", "BitXor", "Add", "Sub", "Eq", "Ne", "Gt", "Lt"):
            return int({"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b, "Add": a + b, "Sub": a - b, "Eq": a == b, "Ne": a != b, "Gt": a > b, "Lt": a < b}[o])
    if t[0] == "un" and t[1] == "Not":
        v = word(t[2], words, idx)
        return 1 - v if t[2][0] == "bin" and t[2][1] in ("Eq", "Ne", "Gt", "Lt") else v ^ 2 ** BITS - 1
    if t[0] == "cast":
        return word(t[-1], words, idx)
    if t[0] == "call":
        n = last(t[1])
        if n in ("index", "index_mut") and len(t[2]) == 2:
            k = word(t[2][1], words, idx)
            if not 0 <= k < len(words):
                raise Outside("word %d of %d" % (k, len(words)))
            return words[k]
        if n in ("div_ceil", "max", "min", "saturating_sub", "wrapping_shl") and len(t[2]) == 2:
            a, b = word(t[2][0], words, idx), word(t[2][1], words, idx)
            return {"div_ceil": -(-a // b) if b else 0, "max": max(a, b), "min": min(a, b), "saturating_sub": max(0, a - b), "wrapping_shl": a << b % BITS & 2 ** BITS - 1}[n]
    raise Stuck(short(t))


def straight(P, f):
    ps = [p for p in flow.Flow(P).paths(f) if not p.div]
    if len(ps) != 1 or ps[0].trunc:
        raise Stuck(f.path)
    return ps[0]


def bitset(rep, P):
    """the set of instructions reached at a position holds what was put into it and nothing else"""
    new, get, ins, clr = (one(P, "regexp::Bitset::" + n) for n in ("new", "get", "insert", "clear"))
    und = 0
    try:
        pn, pg, pi, pc = (straight(P, f) for f in (new, get, ins, clr))
        made = [e for e in pn.events if last(e[0]) == "from_elem"]
        if len(made) != 1:
            raise Stuck("new")
        stores = [e for e in pi.events if last(e[0]) == "store"]
        if len(stores) != 1 or stores[0][1][0][0] != "call" or last(stores[0][1][0][1]) != "index_mut":
            raise Stuck("insert")
        target, val = stores[0][1]
        swap = lambda t: tuple(("arg", 2) if x == ("arg", 1) else swap(x) if isinstance(x, tuple) else x for x in t)
        size = swap(made[0][1][1])
        zero = word(made[0][1][0], [], 0)
        for n in (1, 2, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 200):
            for i in sorted({0, 1, 31, 32, 33, 62, 63, 64, 65, 100, 126, 127, 128, n - 1}):
                if not 0 <= i < n:
                    continue
                try:
                    words = [zero] * word(size, [], n)
                    rep.check("matcher", "instruction set: new", not any(words), where(new), "instructions count as reached before any is")
                    k = word(target[2][1], words, i)
                    v = word(val, words, i)
                    if not 0 <= k < len(words):
                        raise Outside("word %d of %d" % (k, len(words)))
                    words[k] = v
                    has = {j for j in range(n) if word(pg.ret, words, j)}
                except Outside as e:
                    rep.check("matcher", "instruction set: room", False, where(ins), "of %d instructions the one at %d has no place in the set of those reached (%s)" % (n, i, e))
                    continue
                rep.check("matcher", "instruction set: holds", has == {i}, where(ins), "once instruction %d of %d is reached, the set of those reached holds %s" % (i, n, sorted(has)[:4]))
    except Stuck:
        und += 1
    fill = [e for e in pc.events if last(e[0]) in ("fill", "clear")]
    if len(fill) == 1 and last(fill[0][0]) == "fill":
        rep.check("matcher", "instruction set: emptied", fill[0][1] == (("fld", ("arg", 1), None, "0"), ("const", 0)), where(clr), "the set of instructions reached is emptied to %s" % short(fill[0][1][1]))
    else:
        und += 1
    return und


def fresh(rep, P):
    """the next position starts without threads and without instructions reached; an instruction is marked before it is followed"""
    und = 0
    f = one(P, "ThreadList::start_step")
    lt = P.adts.get("crate::translator::regexp::ThreadList") if hasattr(P, "adts") else None
    for p in flow.Flow(P).paths(f):
        if p.div or p.trunc:
            continue
        gone = {e[1][0][3] for e in p.events if last(e[0]) in ("clear", "truncate", "fill") and e[1] and e[1][0][0] == "fld" and e[1][0][1] == ("arg", 1)}
        other = [e for e in p.events if last(e[0]) not in ("clear", "truncate", "fill")]
        for n, what in (("threads", "threads"), ("seen", "instructions reached")):
            if n in gone:
                rep.check("matcher", "fresh " + n, True, where(f), "")
            elif other:
                und += 1
            else:
                rep.check("matcher", "fresh " + n, False, where(f), "the %s of the last position are kept for the next one" % what)
    g = one(P, "CompiledRegexp::find_anchored")
    for p in flow.Flow(P).paths(g):
        # every list threads are added to for a new position was emptied before
        swaps = 0
        clean = set()
        for e in p.events:
            n = last(e[0])
            if n == "start_step":
                clean.add(swaps)
            elif n == "swap":
                swaps += 1
            elif n == "add_thread" and "start_step" in [last(x[0]) for q in (p,) for x in q.events]:
                if swaps not in clean:
                    rep.check("matcher", "fresh list", False, where(g), "threads are added to a list that still holds those of an earlier position")
    h = one(P, "CompiledRegexp::add_thread")
    LIST, PC = ("arg", 2), ("arg", 3)

    def of_list(t):
        return any(x == LIST for x in flow.walk(t))
    for p in flow.Flow(P).paths(h):
        if p.div:
            continue
        marked = False
        for e in p.events:
            n = last(e[0])
            if n == "add_thread" or n == "push":
                if not marked:
                    rep.check("matcher", "marked before followed", False, where(h), "an instruction is followed before it is marked as reached: a loop without characters never ends")
                else:
                    rep.check("matcher", "marked before followed", True, where(h), "")
                break
            if n not in ("get", "contains", "any", "iter", "all", "position") and len(e[1]) >= 2 and of_list(e[1][0]) and any(x == PC for a in e[1][1:] for x in flow.walk(a)):
                marked = True
    return und


PASSES = ("Correct", "Pass2", "Pass3", "Pass4")
CONSUME = {"String": 1, "Dots": 1, "Ignore": 0, "Replace": 0, "SwapClass": 0, "Assignment": 0, "Increment": 0, "Decrement": 0}
LITERAL = {"String": 1, "Dots": 1, "Ignore": 1, "Replace": 0, "SwapClass": 0, "Assignment": 0, "Increment": 0, "Decrement": 0}


def passes(rep, P):
    """a pass is made of all its rules, but that backwards those that put nothing out are left aside"""
    und = 0
    f = one(P, "MultipassTable::compile")
    seen = 0
    for p in flow.Flow(P, loop_bound=1).paths(f):
        if p.trunc or p.div or not (p.ret and p.ret[0] == "agg" and p.ret[2] == "Ok"):
            continue
        ks = [v[1] for c, v in p.conds.items() if c[0] == "discr" and c[1][0] == "fld" and c[1][3] == "rule" and v[0] == "="]
        if len(ks) != 1 or ks[0] not in PASSES:
            continue
        ins = [e for e in p.events if last(e[0]) == "insert"]
        con = [v[1] for c, v in p.conds.items() if c[0] == "call" and last(c[1]) == "consumes_input" and v[0] == "="]
        d = kind(p, ("arg", 2))
        unknown = [c for c, v in p.conds.items() if not (c[0] == "discr" or c[0] == "call" and last(c[1]) == "consumes_input")]
        if unknown:
            und += 1
            continue
        seen += 1
        if d == "Forward" or d is None:
            rep.check("pass", "%s forward" % ks[0], len(ins) == 1, where(f), "a %s rule %sis left out of its pass" % (ks[0].lower(), "whose action puts nothing out " if con == [0] else ""))
        if d == "Backward" and con:
            rep.check("pass", "%s backward, output %d" % (ks[0], con[0]), len(ins) == con[0], where(f), "backwards a %s rule whose action %s is %s its pass" %
                      (ks[0].lower(), "puts something out" if con[0] else "puts nothing out", "in" if ins else "left out of"))
        for e in ins:
            names = [last_field(a) for a in e[1]]
            if "test" in names and "action" in names:
                rep.check("pass", "operands", names.index("test") == 1 and names.index("action") == 2, where(f), "a rule is compiled with its parts exchanged")
    for n, tab in (("ActionInstruction as parser::multipass::ConsumesInput>::consumes_input", CONSUME), ("ActionInstruction as parser::multipass::IsLiteral>::is_literal", LITERAL)):
        g = one(P, n)
        for p in flow.Flow(P).paths(g):
            v = p.conds.get(("discr", ("arg", 1)))
            if p.div or p.trunc or not v or p.ret is None or p.ret[0] != "const":
                und += 1
                continue
            for k in ([v[1]] if v[0] == "=" else [k for k in tab if k not in v[1]]):
                if k in tab:
                    rep.check("pass", "%s %s" % (last(g.path), k), bool(p.ret[1]) == bool(tab[k]), where(g), "an action part %s counts as %s" % (k, "such" if p.ret[1] else "not such") + " in " + last(g.path))
    for n, q in (("::Action as parser::multipass::ConsumesInput>::consumes_input", "any"), ("::Action as parser::multipass::IsLiteral>::is_literal", "all")):
        g = one(P, n)
        for p in flow.Flow(P).paths(g):
            t = p.ret
            if t is None or t[0] != "call" or last(t[1]) not in ("any", "all") or chain(t[2][0])[1][0] != "fld" or set(chain(t[2][0])[0]) - {"iter", "into_iter"}:
                und += 1
                continue
            rep.check("pass", "%s of an action" % last(g.path), last(t[1]) == q, where(g), "%s of an action holds if it does for %s of its parts" % (last(g.path), last(t[1])))
    return und + (0 if seen else 1)


def last_field(t):
    t = strip(t)
    return t[3] if t[0] == "fld" else None


def text(rep, P):
    """the text of a literal action is the texts of its parts, one after the other"""
    und = 0
    fs = [g for n, g in P.fns.items() if n.endswith("try_from") and P.tstr(g.ret_ty()).startswith("std::result::Result<std::string::String") and "multipass::action::Action>" in n]
    if len(fs) != 1:
        return 1
    f = fs[0]
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div or p.ret is None or p.ret[0] != "agg" or p.ret[2] != "Ok":
            continue
        t = strip(p.ret[4][0])
        names, o = chain(t)
        if o[0] != "fld" or o[3] != "actions":
            und += 1
            continue
        lose = set(names) & {"rev", "skip", "take", "filter", "step_by", "skip_while", "take_while", "last", "dedup"}
        rep.check("action", "all parts", not lose, where(f), "the text of an action goes through %s" % sorted(lose))
        j = [x for x in flow.walk(t) if x[0] == "call" and last(x[1]) == "join"]
        if j and j[0][2][1][0] == "str":
            rep.check("action", "nothing between", j[0][2][1][1] == "", where(f), "between the parts of an action there is %r" % j[0][2][1][1])
        elif j or not (set(names) & {"concat", "collect"}):
            und += 1
    return und


def boundary(rep, P):
    """a set of attributes with the boundary among them also matches at the boundary"""
    und = seen = 0
    f = one(P, "match_rule::PatternParser::<'a>::attributes")
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div or p.ret is None or p.ret[0] != "agg" or p.ret[2] != "Ok":
            continue
        r = strip(p.ret[4][0])
        if r[0] != "agg":
            und += 1
            continue
        has = [v[1] for c, v in p.conds.items() if c[0] == "call" and last(c[1]) in ("remove", "contains") and v[0] == "=" and any(x[0] == "agg" and x[2] == "Boundary" for x in flow.walk(c[2][1]))]
        empty = [v[1] for c, v in p.conds.items() if c[0] == "call" and last(c[1]) == "is_empty" and v[0] == "=" and any(x[0] == "mut" and last(x[2]) == "remove" for x in flow.walk(c))]
        if len(has) != 1 or has[0] and len(empty) != 1:
            und += 1
            continue
        want = "Attributes" if not has[0] else "Boundary" if empty[0] else "AttributesOrBoundary"
        seen += 1
        rep.check("boundary", want, r[2] == want, where(f), "a set of attributes %s is read as %s" % ("without a boundary" if not has[0] else "that is only a boundary" if empty[0] else "with a boundary among them", r[2]))
    return und + (0 if seen else 1)


PARTS = [boundary, bitset, fresh, passes, text]
