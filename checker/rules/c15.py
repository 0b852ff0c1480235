"""C15: a stage reads its text once from left to right, and always ends."""
import os
import flow
import seq
from prog import AnchorError
from terms import last, short, src
from rules.c12 import one, where

EXPLANATION = ("One step of the translation loop of each stage is unfolded symbolically (all paths from the loop head back to it). On every path the amount the "
               "text cursor moves, the character position, the offsets of delayed rules, the previous character, the set of rules already applied, the "
               "variables and the piece of output are read off as terms and compared with each other: they must all move by the length of the piece that is "
               "put out, and a step that moves nothing must remember a rule that is then excluded.")
LEVEL = "other"
ASSUMPTIONS = ["characters of a rule marked nocross are never empty (the parser rejects empty operands)", "the first step stands for every step: the loop state enters it only through the compared terms"]


def root(t):
    """what a value changed in place started as"""
    while t[0] in ("mut", "upd"):
        t = t[3] if t[0] == "mut" else t[1]
    return t


def chain(t):
    """in-place changes, oldest first: (callee, uid)"""
    out = []
    while t[0] == "mut":
        out.append((t[2], t[1]))
        t = t[3]
    return out[::-1]


def payload_of(t):
    return t[1] if t[0] == "fld" and t[2] in ("Some", "+") else None


class Step:
    """one iteration of a translation loop, as terms"""

    def __init__(self, P, f, p):
        self.P, self.p, self.ev = P, p, seq.events(p)
        self.text = ("arg", 2)
        ev = p.events
        is_cursor = lambda t: root(t)[0] == "call" and last(root(t)[1]) == "chars" and root(t)[2] == (self.text,)
        self.is_cursor = is_cursor
        cand = []
        for i, e in enumerate(ev):
            g = P.fns.get(e[0])
            if g is None:
                continue
            roles = {}
            for k, a in enumerate(e[1]):
                ty = P.tstr(g.lty(k + 1)).replace("&", "").replace("mut ", "").strip()
                if is_cursor(a) and "str" in ty:
                    roles["cursor"] = a
                elif ty.startswith(("std::option::Option<char", "core::option::Option<char", "Option<char")):
                    roles["prev"] = a
                elif ty.endswith("Environment"):
                    roles["env"] = a
                elif ty == "usize":
                    roles["pos"] = a
                elif ty == "bool":
                    roles["start"] = a
            if "cursor" in roles:
                cand.append((i, e, roles))
        self.cand = cand


def subset(t):
    """the rule a term identifies in the set of rules already applied"""
    while t[0] == "call" and last(t[1]) in ("from", "into", "clone") and len(t[2]) == 1:
        t = t[2][0]
    return t


PROG = [None]


def strip_piece(t):
    """the rule behind a piece whose output may have been changed"""
    while t[0] == "call" and t[2]:
        if last(t[1]) in ("with_output", "clone"):
            t = t[2][0]
            continue
        f = PROG[0].fns.get(t[1])
        i = {1: 0, 2: 1}.get(len(t[2])) if f is not None and "closure" in t[1] else 0 if len(t[2]) == 1 else None
        if f is None or i is None or "ResolvedTranslation" not in PROG[0].tstr(f.ret_ty()) or last(t[1]) in ("new", "resolve"):
            return t
        a = ("arg", i + 1)
        if not all(p.div or plain(p.ret) == a for p in flow.Flow(PROG[0]).paths(f)):
            return t
        t = t[2][i]
    return t


def plain(t):
    while t[0] == "call" and last(t[1]) in ("with_output", "clone") and t[2]:
        t = t[2][0]
    return t


def selection(P, t):
    """max_by_key selection behind a chosen rule: (sequence, filters, key closure)"""
    c = payload_of(t)
    if c is None or c[0] != "call" or last(c[1]) not in ("max_by_key", "min_by_key", "max_by", "min_by", "next", "last", "find", "reduce", "nth"):
        return None
    base, ops = seq.stages(c[2][0])
    return last(c[1]), base, ops, c[2][1] if len(c[2]) > 1 else None


def closure_rets(P, t, args=None):
    if t is None or t[0] != "closure":
        return None
    return [(p.conds, p.ret) for p in flow.Flow(P).paths(P.fns[t[1]], args) if not p.trunc and not p.div]


PICKERS = ("max_by_key", "min_by_key", "max_by", "min_by", "next", "last", "reduce")
PLAIN = ("clone", "as_ref", "as_deref", "copied", "cloned", "to_owned", "borrow", "deref", "iter", "as_mut")


class Unknown(Exception):
    pass


def picked(t):
    """is the term the choice of a rule: nocross or of the others?"""
    while t[0] == "call" and len(t[2]) == 1 and last(t[1]) in PLAIN:
        t = t[2][0]
    if t[0] == "call" and last(t[1]) in PICKERS and t[2] and t[2][0][0] == "call":
        b = seq.stages(t[2][0])[0]
        if b[0] == "call" and last(b[1]) == "nocross_candidates":
            return "nocross"
        if last(t[1]) != "next":
            return "plain"
    return None


def weigh(P, t, w, loc={}):
    """what a condition on the rules chosen from amounts to, w: {nocross/plain: None or (length, weight)}"""
    go = lambda x: weigh(P, x, w, loc)
    if t in loc:
        return loc[t]
    k = picked(t)
    if k:
        return ("opt", w[k])
    if t[0] == "const":
        return t[1]
    if t[0] == "discr":
        v = go(t[1])
        if isinstance(v, tuple) and v[0] == "opt":
            return "+" if v[1] is not None else "-"
        raise Unknown()
    if t[0] == "fld" and t[2] in ("+", "Some") and t[3] == "0":
        v = go(t[1])
        if isinstance(v, tuple) and v[0] == "opt" and v[1] is not None:
            return ("rule", v[1])
        raise Unknown()
    if t[0] == "un" and t[1] == "Not":
        return int(not go(t[2]))
    if t[0] == "bin":
        a, b = go(t[2]), go(t[3])
        if isinstance(a, int) and isinstance(b, int):
            o = {"Ge": a >= b, "Gt": a > b, "Le": a <= b, "Lt": a < b, "Eq": a == b, "Ne": a != b, "Add": a + b, "Sub": a - b, "BitAnd": a & b, "BitOr": a | b}
            if t[1] in o:
                return int(o[t[1]])
        raise Unknown()
    if t[0] == "agg" and t[2] in ("Some", "None"):
        return ("opt", go(t[4][0]) if t[4] else None)
    if t[0] == "call":
        n = last(t[1])
        a = t[2]
        if n in PLAIN and len(a) == 1:
            return go(a[0])
        if n in ("weight", "length") and len(a) == 1:
            v = go(a[0])
            if isinstance(v, tuple) and v[0] == "rule":
                return v[1][n == "weight"]
            raise Unknown()
        if n in ("is_some", "is_none") and len(a) == 1:
            v = go(a[0])
            if isinstance(v, tuple) and v[0] == "opt":
                return int((v[1] is not None) == (n == "is_some"))
            raise Unknown()
        if n in ("is_some_and", "is_none_or", "map_or", "map", "map_or_default", "filter"):
            v = go(a[0])
            if not (isinstance(v, tuple) and v[0] == "opt"):
                raise Unknown()
            fn = a[-1]
            if v[1] is None:
                return {"is_some_and": 0, "is_none_or": 1, "map": ("opt", None), "map_or_default": 0, "filter": ("opt", None)}[n] if n != "map_or" else go(a[1])
            if fn[0] == "fn" and last(fn[1]) in ("weight", "length"):
                r = v[1][last(fn[1]) == "weight"]
            else:
                if fn[0] != "closure" or P.fns.get(fn[1]) is None:
                    raise Unknown()
                x = ("arg", 2)
                rs = []
                for p in flow.Flow(P).paths(P.fns[fn[1]], [fn, x]):
                    if p.trunc or p.div:
                        raise Unknown()
                    new = dict(loc)
                    new[x] = ("rule", v[1]) if isinstance(v[1], tuple) else v[1]
                    if all(holds(weigh(P, c, w, new), vv) for c, vv in p.conds.items()):
                        rs.append(weigh(P, p.ret, w, new))
                if len(set(rs)) != 1:
                    raise Unknown()
                r = rs[0]
            if n == "filter":
                return v if r else ("opt", None)
            return ("opt", r) if n == "map" else r
        if n in ("ge", "gt", "le", "lt", "eq", "ne") and len(a) == 2:
            x, y = go(a[0]), go(a[1])
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "opt" and all(z[1] is None or isinstance(z[1], int) for z in (x, y)):
                x, y = (-1 if x[1] is None else x[1]), (-1 if y[1] is None else y[1])
            if isinstance(x, int) and isinstance(y, int):
                return int({"ge": x >= y, "gt": x > y, "le": x <= y, "lt": x < y, "eq": x == y, "ne": x != y}[n])
    raise Unknown()


def holds(x, v):
    return x == v[1] if v[0] == "=" else x not in v[1]


RULES = (None, (1, 1), (1, 2), (2, 2), (2, 3))


def preferred(P, conds, kind):
    """a rule marked nocross is used exactly if no other weighs more; (checked, what is wrong, undecided)"""
    known = []
    for c, v in conds.items():
        try:
            for n in RULES[:2]:
                weigh(P, c, {"nocross": n, "plain": n})
        except Unknown:
            try:
                weigh(P, c, {"nocross": RULES[1], "plain": RULES[1]})
            except Unknown:
                if c[0] == "call" and any(picked(x) == "nocross" for x in flow.walk(c)):
                    return 0, None, 1
                continue
        known.append((c, v))
    n = 0
    there = kind == "nocross" or any(picked(x) == "nocross" for c, v in known for x in flow.walk(c[1] if c[0] == "discr" else c))
    for a in RULES if there else (None,):
        for b in RULES:
            w = {"nocross": a, "plain": b}
            try:
                ok = all(holds(weigh(P, c, w), v) for c, v in known)
            except Unknown:
                continue
            if not ok:
                continue
            n += 1
            want = "nocross" if a and (not b or a[1] >= b[1]) else "plain" if b else "none"
            if want != kind:
                return n, "with a nocross rule of %s and another of %s, %s is used" % (
                    *("length %d and weight %d" % x if x else "no such rule" for x in (a, b)), {"nocross": "the nocross rule", "plain": "the other", "none": "neither"}[kind]), 0
    return n, None, 0


def not_seen(P, fn, seen_root):
    """is the filter the test that a rule has not been applied here yet?"""
    rs = closure_rets(P, fn, [fn, ("arg", 2)])
    if not rs:
        return None
    has = lambda r: r[0] == "call" and last(r[1]) == "contains" and root(r[2][0]) == seen_root and subset(r[2][1]) == ("arg", 2)
    out = True
    for conds, r in rs:
        known = [v for c, v in conds.items() if has(c)]
        if r == ("const", 0) or known and known[0] == ("=", 0) or r[0] == "un" and r[1] == "Not" and has(r[2]):
            continue
        if known and known[0] == ("=", 1) or r == ("const", 1):
            return False
        out = None
    return out


def splits(e):
    """the step at which delayed rules whose place has come are taken out"""
    n = last(e[0])
    if n == "partition_delayed_translations":
        return True
    if n != "partition":
        return False
    b = root(seq.stages(e[1][0])[0])
    return b[0] == "call" and not last(b[1]).startswith("find")


def delayed(e):
    return e[1][1] if last(e[0]) == "partition_delayed_translations" else e[1][0]


def loop(rep, P, name):
    und = 0
    PROG[0] = P
    f = one(P, name)
    W = where(f)
    short_name = "main" if "Primary" in name else "multipass"

    def stop(e, st):
        return splits(e) and sum(map(splits, st.events)) == 2
    ps = flow.Flow(P, max_paths=60000, stop=stop).paths(f)
    result = None
    kinds = set()
    for p in ps:
        if not p.stop and not p.trunc and not p.div:
            result = root(p.ret)
            break
    if result is None or not any(p.stop for p in ps):
        raise AnchorError("the loop of " + f.path)
    Ck = lambda rule, inst, ok, text: rep.check(rule, "%s: %s" % (short_name, inst), ok, W, "in the %s stage %s" % (short_name, text))
    for p in ps:
        if p.div:
            continue
        s = Step(P, f, p)
        ev = s.ev
        parts = [e for e in p.events if splits(e)]
        if not parts:
            und += 1
            continue
        pieces = []
        for e in p.events:
            if last(e[0]) in ("push", "extend") and e[1] and root(e[1][0]) == result:
                pieces.append((last(e[0]), e[1][1]))
        chosen = [x for k, x in pieces if k == "push"]
        extra = [x for k, x in pieces if k == "extend"]
        edge = max([i for i, e in enumerate(p.events) if last(e[0]) == "push" and e[1] and root(e[1][0]) == result] or [len(p.events)])
        first = [c for c in s.cand if c[0] < edge]
        if not p.stop:
            # the only way out: nothing to apply, and no character left
            ends = [c for c, v in p.conds.items() if c[0] == "discr" and v == ("=", "-") and c[1][0] == "call" and last(c[1][1]) == "next" and s.is_cursor(c[1][2][0])]
            sel = [c for c, v in p.conds.items() if c[0] == "discr" and v == ("=", "+") and c[1][0] == "call" and last(c[1][1]) == "max_by_key" and not any(
                k[0] == "call" and last(k[1]) == "is_none_or" and w == ("=", 0) for k, w in p.conds.items())]
            if len(chosen) > 0 or len(parts) != 1:
                continue
            Ck("end", "ends only at the end of the text", bool(ends), "translation can end before the end of the text")
            Ck("end", "ends only when no rule applies", not sel, "translation can end although a rule applies")
            kinds.add("end")
            continue
        # state at the next loop head
        second = [c for c in s.cand if c[0] > edge]
        if not first or not second:
            und += 1
            continue
        state = {}
        for i, e, r in second:
            for k, v in r.items():
                state.setdefault(k, set()).add(v)
        before = {}
        for i, e, r in first:
            for k, v in r.items():
                before.setdefault(k, set()).add(v)
        if any(len(v) != 1 for k, v in list(state.items()) + list(before.items())):
            # two candidate searches of one step look at different states
            for k in state:
                if len(state[k]) != 1 or len(before.get(k, {1})) != 1:
                    Ck("lockstep", "one %s per step" % k, False, "the searches of one step use different values of %s" % k)
            continue
        state = {k: next(iter(v)) for k, v in state.items()}
        before = {k: next(iter(v)) for k, v in before.items()}
        # start of text
        if "start" in before:
            for st in (before, state):
                want = {("bin", "Eq", a, b) for ln in ("core::str::<impl str>::len",) for a, b in ()}
                t = st["start"]
                ok = t[0] == "bin" and t[1] == "Eq" and t[2][0] == "call" and t[3][0] == "call" and last(t[2][1]) == last(t[3][1]) == "len" and \
                    {t[2][2][0], t[3][2][0]} == {st["cursor"], s.text}
                if not ok and t[0] not in ("bin", "const"):
                    und += 1
                else:
                    Ck("start", "start of the text", ok, "the start of the text is recognised by %s" % short(t)[:80])
        # advance
        steps = chain(state["cursor"])
        adv, odd = [], False
        for n, uid in steps:
            m = last(n)
            if m == "next":
                adv.append(("const", 1))
            elif m == "nth":
                a = ev[uid][1][1]
                if a[0] == "bin" and a[1] == "Sub" and a[3] == ("const", 1):
                    adv.append(a[2])
                elif a[0] == "const":
                    adv.append(("const", a[1] + 1))
                else:
                    adv.append(("bin", "Add", a, ("const", 1)))
            else:
                odd = True
        if odd or root(state["cursor"]) != root(before["cursor"]) or chain(before["cursor"]):
            und += 1
            continue
        if len(chosen) != 1:
            Ck("piece", "one piece per step", False, "a step puts out %d pieces" % len(chosen))
            continue
        if len(adv) > 1:
            Ck("progress", "one move per step", False, "the text cursor moves %d times in a step" % len(adv))
            continue
        A = adv[0] if adv else ("const", 0)
        if any(c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next" and any(x[0] == "agg" and "Range" in x[1] for x in flow.walk(c[1])) for c in p.conds):
            und += 1            # an inner loop over a range: not followed
            continue
        t = strip_piece(chosen[0])
        sel = selection(P, t)
        ln = lambda x: x[0] == "call" and last(x[1]) == "length" and x[2] == (t,)
        # what is consumed
        char = None
        if sel:
            kind = "rule"
            kinds.add("rule")
            if "nocross" in str(sel[1])[:4000] and not sel[2]:
                pass
            zero = [v for c, v in p.conds.items() if c[0] == "bin" and c[1] in ("Eq", "Gt", "Ge", "Lt") and any(ln(x) for x in c[2:])]
            inserts = [e for e in p.events if last(e[0]) == "insert" and len(e[1]) == 2 and subset(e[1][1]) == t and "HashSet" in e[0]]
            clears = [e for e in p.events if last(e[0]) == "clear" and "HashSet" in e[0]]
            if A == ("const", 0):
                kinds.add("zero")
                if not inserts:
                    Ck("progress", "a rule that matches nothing is remembered", False,
                       "a step can apply a rule without moving on or remembering it: translation may never end")
                    continue
                sr = root(inserts[0][1][0])
                filt = [not_seen(P, o[1][0], sr) for o in sel[2] if o[0] == "filter"]
                if True in filt:
                    Ck("progress", "a remembered rule is not applied again", True, "")
                elif None in filt:
                    und += 1
                else:
                    Ck("progress", "a remembered rule is not applied again", False, "a rule applied at a place without moving on is not excluded there: translation may never end")
                late = [e for e in clears if root(e[1][0]) == sr and e[2] > inserts[0][2]]
                Ck("progress", "a remembered rule stays remembered", not late, "the rules applied at a place are forgotten before the text moves on")
                # length zero only
                z = [(c, v) for c, v in p.conds.items() if c[0] == "bin" and c[1] == "Eq" and any(ln(x) for x in c[2:]) and ("const", 0) in c[2:]]
                if z:
                    Ck("progress", "a rule that matches text moves on", z[0][1] == ("=", 1), "a rule that matches text does not move the text cursor")
            elif ln(A):
                if clears or any(last(e[0]) == "insert" and "HashSet" in e[0] for e in p.events):
                    pass
                Ck("seen", "a step that moves on forgets the rules applied before", bool(clears), "rules applied at an earlier place stay excluded after the text moved on")
                Ck("seen", "only rules that match nothing are remembered", not inserts, "a rule that moves on is remembered as applied")
            elif A[0] == "const" or A[0] == "bin":
                Ck("progress", "a rule moves on by the text it matches", False, "the text cursor moves by %s when a rule is applied" % short(A)[:90])
                continue
            else:
                if A[0] == "call" and A[2] == (t,):
                    Ck("progress", "a rule moves on by the text it matches", False, "the text cursor moves by the %s of the rule applied" % last(A[1]))
                elif A[0] == "call" and last(A[1]) == "length":
                    Ck("progress", "a rule moves on by the text it matches", False, "the text cursor moves by the length of another rule")
                else:
                    und += 1
                continue
        else:
            kind = "char"
            nx = [e for e in p.events if last(e[0]) == "next" and e[2] == (steps[0][1] if steps else -1)]
            if A != ("const", 1) or not nx:
                if A == ("const", 0):
                    if os.environ.get("VP_TRACE"): print(t)
                    Ck("progress", "a character without rule moves on", False, "a character can be put out without moving on: translation may never end")
                else:
                    und += 1
                continue
            kinds.add("char")
            char = ("fld", ("call", nx[0][0], nx[0][1], nx[0][2]), "Some", "0")
            clears = [e for e in p.events if last(e[0]) == "clear" and "HashSet" in e[0]]
            Ck("seen", "a character forgets the rules applied before", bool(clears), "rules applied at an earlier place stay excluded after a character without rule")
            # which piece
            und += character(Ck, P, p, chosen[0], char, short_name)
        # lockstep
        if "pos" in state:
            d = diff(before["pos"], state["pos"])
            if d is None:
                und += 1
            else:
                Ck("lockstep", "character position after a %s" % kind, like(d, A), "the text moves by %s but the character position by %s" % (short(A)[:60], short(d)[:60]))
        if "prev" in state:
            w = state["prev"]
            if A == ("const", 0):
                Ck("lockstep", "previous character of a rule that matches nothing", w == before["prev"], "the previous character changes although the text does not move")
            elif kind == "char":
                good = w[0] == "agg" and w[2] == "Some" and w[4][0] == char
                Ck("lockstep", "previous character after a character", good, "the previous character becomes %s" % short(w)[:80])
            else:
                b, ops = w, None
                good = w[0] == "call" and last(w[1]) in ("last", "next_back") and seq.stages(w[2][0])[1] == [("chars", ())]
                x = seq.stages(w[2][0])[0] if good else None
                good = good and x[0] == "call" and last(x[1]) == "input" and strip_piece(x[2][0]) == t
                if not good and w != before["prev"] and not (w[0] == "call" and last(w[1]) in ("last", "next", "nth", "next_back")):
                    und += 1
                else:
                    Ck("lockstep", "previous character after a rule", good, "the previous character becomes %s, not the last character the rule matched" % short(w)[:80])
        # delayed rules
        d1 = seq.stages(delayed(parts[1]))[0]
        adds = chain(d1)
        d0 = root(d1)
        u = src(d0)
        rest = ("fld", ("call",) + tuple(parts[0][:3]), None, "1")
        if u[0] == "call" and last(u[1]) == "update_offsets":
            a = u[2]
            good = like(a[-1], A) or (ln(a[-1]) and A == ("const", 0))
            Ck("lockstep", "offsets of delayed rules after a %s" % kind, good, "the text moves by %s but delayed rules by %s" % (short(A)[:60], short(a[-1])[:60]))
            Ck("delayed", "delayed rules are kept", seq.stages(a[-2])[0] == rest, "the delayed rules are lost after a step")
        elif d0[0] == "call" and seq.stages(d0)[0] == rest and seq.stages(d0)[1]:
            ops = seq.stages(d0)[1]
            rs = [(o, closure_rets(P, a[0], [a[0], ("arg", 2)])) for o, a in ops]
            if [o for o, _ in rs] != ["filter", "map"] or any(not r or len(r) != 1 for _, r in rs):
                und += 1
            else:
                m = rs[1][1][0][1]
                if m[0] == "call" and last(m[1]) == "decrement_offset":
                    good = like(m[2][1], A) or (ln(m[2][1]) and A == ("const", 0))
                    Ck("lockstep", "offsets of delayed rules after a %s" % kind, good, "the text moves by %s but delayed rules by %s" % (short(A)[:60], short(m[2][1])[:60]))
                else:
                    und += 1
        elif d0 == rest:
            Ck("lockstep", "offsets of delayed rules after a %s" % kind, A == ("const", 0), "the text moves by %s but delayed rules do not come nearer" % short(A)[:60])
        elif found_only(P, d1, ev, p):
            Ck("delayed", "delayed rules are kept", False, "the rules found for later replace the delayed rules, which are lost")
        else:
            und += 1
        # nocross rules and others
        if short_name == "main":
            kd = ("nocross" if picked(payload_of(t)) == "nocross" else "plain") if sel else "none"
            got, wrong, u = preferred(P, p.conds, kd)
            und += u
            if got:
                Ck("choice", "a nocross rule is used exactly if no other weighs more", wrong is None, wrong or "")
        # candidates of this step
        if sel and not (seq.stages(sel[1])[0][0] == "call" and last(sel[1][1]) == "nocross_candidates"):
            und += candidates(Ck, P, p, s, first, parts[0], sel)
        if sel:
            op, base, ops, key = sel
            if key is None or key[0] not in ("closure", "fn"):
                und += 1
            else:
                rs = [(None, ("call", key[1], (("arg", 2),), 0))] if key[0] == "fn" else closure_rets(P, key)
                r = rs[0][1] if rs and len(rs) == 1 else None
                if r is None:
                    und += 1
                else:
                    Ck("choice", "the heaviest rule is used", op == "max_by_key" and r[0] == "call" and last(r[1]) == "weight" and r[2] == (("arg", 2),),
                       "of several rules the one chosen is %s of %s" % (op, short(r)[:60]))
        # variables
        if "env" in state:
            und += effects(Ck, P, p, s, before, state, t if sel else None, kind, sel)
    rep.count("steps of the %s loop" % short_name, len(ps))
    rep.floor("kinds of step in the %s loop" % short_name, len(kinds), 4)
    return und


def like(a, b):
    """equal up to which of several calls of the same accessor produced the value"""
    return a == b or a[0] == b[0] == "call" and a[1:3] == b[1:3]


def diff(a, b):
    """b - a"""
    if a == b:
        return ("const", 0)
    if a[0] == "const" and b[0] == "const":
        return ("const", b[1] - a[1])
    if b[0] == "bin" and b[1] == "Add":
        if b[2] == a:
            return b[3]
        if b[3] == a:
            return b[2]
    if a == ("const", 0):
        return b
    return None


def found_only(P, t, ev, p):
    """does a list hold nothing but what the searches of this step found for later?"""
    items, _ = contents(t, ev)
    mine = {("call",) + tuple(e[:3]) for e in p.events if e[0] in P.fns and not splits(e) and P.tstr(P.fns[e[0]].ret_ty()).startswith("(")}
    return all(x[0] == "fld" and str(x[3]) == "1" and x[1] in mine for x in items)


def character(Ck, P, p, piece, c, stage):
    """a character without rule: its definition, the table's undefined rule, or its code"""
    und = 0
    lost = [k for k, v in p.conds.items() if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) in ("filter", "xor", "and", "and_then", "take_if") and v == ("=", "-")
            and any(x[0] == "call" and last(x[1]) == "get" and x[2][1:] == (c,) and x[2][0][0] == "fld" and x[2][0][3] == "character_translations" for x in flow.walk(k[1]))]
    if lost and stage == "main":
        Ck("character", "a defined character", False, "a character can be put out as undefined although it is defined (%s)" % short(lost[0][1])[:80])
        return 0
    defs = [(k, v) for k, v in p.conds.items() if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) == "get" and len(k[1][2]) == 2 and k[1][2][1] == c
            and k[1][2][0][0] == "fld" and k[1][2][0][3] == "character_translations"]
    undef = [(k, v) for k, v in p.conds.items() if k == ("discr", ("fld", ("arg", 1), None, "undefined"))]
    t = piece
    while t[0] == "call" and last(t[1]) == "clone":
        t = t[2][0]
    is_new = t[0] == "call" and last(t[1]) == "new" and len(t[2]) >= 4
    same = lambda x: seq.stages(x)[0] == c and not seq.stages(x)[1]
    if stage == "main":
        if not defs:
            return 1
        if defs[0][1] == ("=", "+"):
            Ck("character", "a defined character", t == ("fld", defs[0][0][1], "Some", "0"), "a defined character is put out as %s" % short(t)[:80])
            return 0
        if not is_new or not undef:
            if is_new or payload_of(t) is None:
                return 1
            Ck("character", "an undefined character", False, "an undefined character is put out as %s" % short(t)[:80])
            return 0
        st = t[2][3]
        if st[0] == "agg":
            Ck("character", "stage of an undefined character", st[2] == "Main", "an undefined character is listed in stage %s" % st[2])
        Ck("character", "input of an undefined character", same(t[2][0]), "the piece for an undefined character stands for %s" % short(t[2][0])[:60])
        o = seq.stages(t[2][1])[0]
        if undef[0][1] == ("=", "+"):
            Ck("character", "undefined rule", o == ("fld", ("fld", ("arg", 1), None, "undefined"), "Some", "0"), "with a rule for undefined characters they are put out as %s" % short(o)[:60])
        elif o[0] == "call" and o[2] and last(o[1]) == "handle_undefined_char":
            Ck("character", "code of an undefined character", o[2][-1] == c, "an undefined character is put out as the code of %s" % short(o[2][-1])[:60])
        elif o == c or o[0] in ("str", "char"):
            Ck("character", "code of an undefined character", False, "an undefined character is put out as %s" % short(o)[:60])
        else:
            und += 1
    else:
        if not is_new:
            return 1
        Ck("character", "a character no rule changes is kept", same(t[2][0]) and same(t[2][1]), "a character to which no rule applies is put out as %s" % short(t[2][1])[:60])
        Ck("character", "stage of a character no rule changes", t[2][3][0] != "agg", "a character to which no rule applies is listed in the wrong stage")
    if is_new:
        Ck("character", "length of a character without rule", t[2][2] == ("const", 1) or t[2][2][0] not in ("const",), "a character without rule counts as %s characters" % short(t[2][2]))
    return und


def candidates(Ck, P, p, s, first, part, sel):
    """every search contributes its immediate rules to the choice and its later ones to the delayed rules"""
    und = 0
    ev = s.ev
    base, ops = sel[1], sel[2]
    now, cleared = contents(base, ev)
    later, _ = contents(delayed(part), ev)
    call = lambda e: ("call",) + tuple(e[:3])
    part_now = ("fld", call(part), None, "0")
    for i, e, r in first:
        g = P.fns[e[0]]
        ret = P.tstr(g.ret_ty())
        if not ret.startswith("("):
            continue
        n = last(e[0])
        if not cleared:
            Ck("candidates", "rules found by %s are considered" % n, ("fld", call(e), None, "0") in now, "the rules found by %s are not considered" % n)
        Ck("candidates", "later rules found by %s are kept" % n, ("fld", call(e), None, "1") in later, "rules found by %s that apply further on are dropped" % n)
    if not cleared:
        Ck("candidates", "delayed rules that have come up are considered", part_now in now, "delayed rules whose place has come are not considered")
    return und


def contents(t, ev):
    """sequences appended to a vector"""
    out, cleared = [], False
    while True:
        for n, uid in chain(t):
            m = last(n)
            if m in ("extend", "append"):
                out.append(seq.stages(ev[uid][1][1])[0])
            elif m == "clear":
                cleared = True
        t = root(t)
        of = seq.stages(t)[0] if t[0] == "call" else t
        if of == t:
            break
        t = of          # thinned out into a new vector
    out.append(t)
    return out, cleared


def effects(Ck, P, p, s, before, state, t, kind, sel):
    e0, e1 = before["env"], state["env"]
    ch = chain(e1)
    if root(e1) != root(e0):
        r = root(e1)
        if r[0] == "call" and last(r[1]) in ("new", "default") and not r[2]:
            Ck("variables", "variables are kept", False, "all variables are reset after a %s" % kind)
            return 0
        return 1
    eff = lambda x: x[0] == "call" and last(x[1]) == "effects" and strip_piece(x[2][0]) == t
    mine = [(c, v) for c, v in p.conds.items() if any(eff(x) for x in flow.walk(c))] if t else []
    applied = [(n, uid) for n, uid in ch if last(n) == "apply"]
    if len(applied) != len(ch):
        return 1
    if kind != "rule" or (sel and any(x[0] == "call" and last(x[1]) == "nocross_candidates" for x in flow.walk(sel[1]))):
        Ck("variables", "only rules change variables", not ch, "variables change although no rule with effects is applied")
        return 0
    if not mine and not applied:
        Ck("variables", "effects of the applied rule", False, "the effects of an applied rule are dropped")
        return 0
    items = [c[1] for c, v in mine if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next" and v == ("=", "+")]
    for c, v in mine:
        if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next":
            try:
                skip = [o[0] for o in seq.stages(seq.loop_base(c[1])[0])[1]]
            except seq.Unknown:
                return 1
            if skip:
                Ck("variables", "all effects of the applied rule", False, "the effects of the applied rule are carried out through %s" % skip[0])
                return 0
    got = []
    for n, uid in applied:
        a = s.ev[uid][1][1]
        pl = payload_of(a)
        got.append(pl)
    empty = [v for c, v in mine if c[0] == "call" and last(c[1]) == "is_empty"]
    Ck("variables", "effects of the applied rule", got == items, "%d effects of the applied rule are carried out, it has %d" % (len(got), len(items)))
    if empty and empty[0] == ("=", 1):
        Ck("variables", "a rule without effects", not ch, "variables change although the applied rule has no effects")
    elif empty and empty[0] == ("=", 0):
        done = [c for c, v in mine if c[0] == "discr" and v == ("=", "-")]
        Ck("variables", "all effects of the applied rule", bool(done), "not all effects of the applied rule are carried out")
    return 0


def offset_test(P, t, want0):
    """closure that says whether the rule applies here"""
    rs = closure_rets(P, t)
    if not rs or len(rs) != 1:
        return None
    r = rs[0][1]
    if r[0] == "bin" and r[1] == "Eq" and r[2][0] == "call" and last(r[2][1]) == "offset" and r[2][2] == (("arg", 2),) and r[3] == ("const", 0):
        return True
    if r[0] == "un" or r[0] == "bin":
        return False
    return None


def helpers(rep, P):
    """the small functions of the loop: splitting off delayed rules, bringing them nearer, the code of an undefined character"""
    und = 0
    for tab in ("PrimaryTable", "MultipassTable"):
        for f in P.fns.values():
            if "::%s::" % tab not in f.path or f.kind not in ("fn", "method") or "{closure" in f.path:
                continue
            ret = P.tstr(f.ret_ty())
            n = last(f.path)
            W = where(f)
            if ret.startswith("(") and ret.count("ResolvedTranslation") == 2:
                for p in flow.Flow(P).paths(f):
                    t = p.ret
                    if t[0] != "call" or last(t[1]) != "partition":
                        und += 1
                        continue
                    ok = offset_test(P, t[2][1], True)
                    if ok is None:
                        und += 1
                    else:
                        rep.check("split", "%s::%s" % (tab, n), ok, W, "%s does not split off exactly the rules that apply further on" % n)
                    b, ops = seq.stages(t[2][0])
                    if ops:
                        bad = [o[0] for o in ops if o[0] in ("filter", "skip", "take", "rev", "dedup", "take_while", "skip_while", "step_by")]
                        if bad:
                            rep.bad("split", "%s::%s drops no rule" % (tab, n), W, "%s passes the rules through %s" % (n, bad[0]))
                        continue
                    # the search gets the arguments of its own role
                    if b[0] == "call" and b[2]:
                        g = P.fns.get(b[1])
                        if g:
                            for k, a in enumerate(b[2]):
                                if a[0] == "arg" and a[1] > 1:
                                    rep.check("split", "%s::%s argument %d" % (tab, n, k), True)
                                elif a[0] == "const" or a[0] == "agg":
                                    rep.bad("split", "%s::%s argument %d" % (tab, n, k), W, "%s always searches with %s" % (n, short(a)))
            if n == "update_offsets":
                for p in flow.Flow(P).paths(f):
                    b, ops = seq.stages(p.ret)
                    if b != ("arg", 2) or [o[0] for o in ops] not in (["filter", "map"], ["map"], ["filter"]):
                        und += 1
                        continue
                    for o, a in ops:
                        rs = closure_rets(P, a[0], [a[0], ("arg", 2)])
                        if not rs or len(rs) != 1:
                            und += 1
                            continue
                        r = rs[0][1]
                        dec = ("arg", 3)
                        off = lambda x: x[0] == "call" and last(x[1]) == "offset" and x[2] == (("arg", 2),)
                        isdec = lambda x: x == dec or x == ("fld", ("arg", 1), None, "decrement")
                        if o == "filter":
                            if r[0] != "bin":
                                und += 1
                                continue
                            ok = r[1] == "Ge" and off(r[2]) and isdec(r[3]) or r[1] == "Le" and off(r[3]) and isdec(r[2])
                            rep.check("nearer", "%s: passed rules are dropped" % tab, ok, W, "delayed rules are kept when %s" % short(r))
                        else:
                            if r[0] != "call":
                                und += 1
                                continue
                            ok = last(r[1]) == "decrement_offset" and r[2][0] == ("arg", 2) and isdec(r[2][1])
                            rep.check("nearer", "%s: offsets shrink" % tab, ok, W, "delayed rules come nearer by %s" % short(r))
                    rep.check("nearer", "%s: both steps" % tab, [o[0] for o in ops] == ["filter", "map"], W, "delayed rules are only passed through %s" % [o[0] for o in ops])
    f = one(P, "::ResolvedTranslation::decrement_offset")
    for p in flow.Flow(P).paths(f):
        t = p.ret
        if t[0] == "agg" and "offset" in t[3]:
            o = t[4][t[3].index("offset")]
            ok = o == ("bin", "Sub", ("fld", ("arg", 1), None, "offset"), ("arg", 2)) or o[0] == "call" and last(o[1]) == "saturating_sub" and o[2] == (("fld", ("arg", 1), None, "offset"), ("arg", 2))
            rep.check("nearer", "decrement_offset", ok, where(f), "the offset becomes %s" % short(o))
        else:
            und += 1
    und += lengths(rep, P)
    und += undefined(rep, P)
    return und


def lengths(rep, P):
    """length and input of a piece always belong together"""
    und = 0
    n = 0
    for f in P.fns.values():
        if f.derived or f.kind not in ("fn", "method", "closure") or "::translation::" not in f.path or "tests" in f.path:
            continue
        if "ResolvedTranslation" not in P.tstr(f.ret_ty()) or last(f.path) in ("clone", "default"):
            continue
        for p in flow.Flow(P).paths(f):
            t = p.ret
            if t[0] != "agg" or not t[1].endswith("::ResolvedTranslation") or "input" not in t[3]:
                continue
            g = dict(zip(t[3], t[4]))
            i, l = g["input"], g["length"]
            if i == ("fld", ("arg", 1), None, "input") and l == ("fld", ("arg", 1), None, "length"):
                rep.ok("length", f.path)
                continue
            ok = l[0] == "call" and last(l[1]) == "count" and seq.stages(l[2][0])[1] == [("chars", ())] and seq.stages(l[2][0])[0] == seq.stages(i)[0]
            if not ok and l[0] == "call" and last(l[1]) not in ("len", "count"):
                und += 1
                continue
            n += 1
            rep.check("length", "%s" % f.path, ok, where(f), "the length of a piece is set to %s, its input to %s" % (short(l), short(i)))
    rep.floor("constructors of pieces", n, 3)
    return und


def undefined(rep, P):
    und = 0
    try:
        f = one(P, "::PrimaryTable::handle_undefined_char")
    except AnchorError:
        return 1
    for p in flow.Flow(P).paths(f):
        b, ops = seq.stages(p.ret)
        if [o[0] for o in ops] != ["chars", "map"]:
            und += 1
            continue
        reps = []
        while b[0] == "call" and last(b[1]) == "replace":
            reps.append((b[2][1], b[2][2]))
            b = seq.stages(b[2][0])[0]
        want = [(("str", "\\u"), ("str", "\\x")), (("array", (("char", "{"), ("char", "}"))), ("str", ""))]
        ok = b[0] == "call" and last(b[1]) == "escape_unicode" and b[2] == (("arg", 2),)
        if not (b[0] == "call" and last(b[1]).startswith("escape")):
            und += 1
            continue
        rep.check("character", "code of an undefined character: which", ok, where(f), "the code of an undefined character is made from %s" % short(b))
        if all(a[0] in ("str", "char", "array") for a, _ in reps):
            rep.check("character", "code of an undefined character: form", reps[::-1] == want, where(f), "the code of an undefined character is changed by the replacements %s" % [short(a) for a, _ in reps])
        rs = closure_rets(P, ops[1][1][0], [ops[1][1][0], ("arg", 2)])
        for conds, r in rs or []:
            g = [(c, v) for c, v in conds.items() if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "get" and c[1][2][1] == ("arg", 2)]
            if len(g) != 1:
                und += 1
                continue
            if g[0][1] == ("=", "+"):
                rep.check("character", "code character with a definition", r == ("fld", g[0][0][1], "Some", "0"), where(f), "a character of the code is put out as %s" % short(r))
            else:
                x = seq.stages(r)[0]
                rep.check("character", "code character without a definition", x[0] == "call" and last(x[1]) == "fallback" and x[2] == (("arg", 2),), where(f), "a character of the code is put out as %s" % short(r))
    return und


def main_loop(rep, P):
    return loop(rep, P, "::PrimaryTable::trace")


def pass_loop(rep, P):
    return loop(rep, P, "::MultipassTable::trace")


def kept(rep, P):
    """the steps go by what the record of a rule tells"""
    import rules.record as r
    return r.record(rep, P, ("input", "output", "length", "weight", "offset", "effects")) + r.subset(rep, P)


def run(rep, L, B):
    rep.parts([main_loop, pass_loop, helpers, kept], L)
    return 0
