"""C19: when a table says the same thing twice, the first rule counts."""
import flow
import seq
from terms import last, short
from rules import c12
from rules.c12 import one, where

EXPLANATION = ("Path enumeration of the functions that store a definition: on each path it is decided whether an entry that is there is kept or replaced, under which comparison of "
               "precedences, and which precedence is stored with a rule. With the feature backwards_compatibility (the default) the first of two equal rules must stay, without it the last must win "
               "(analysed in the thorough tier). The order in which rules are gone through is traced back to the list of rules, and the level of each opcode is evaluated.")
LEVEL = "other"
ASSUMPTIONS = ["HashMap entry, or_insert, insert and get do what the standard library says"]

MAPS = ("HashMap", "BTreeMap")


def base_map(t):
    while t[0] == "mut":
        t = t[3]
    return t


def is_map(t, field=None):
    return field is None or base_map(t) == field


def policy(p, mp, conds):
    """[(key, value, 'first' | 'last' | '?')] of what a path writes into a map; known: what it has found out about entries"""
    out = []
    entries = {}
    there = {}
    for k, x in conds.items():
        t = k
        if t[0] == "call" and last(t[1]) == "contains_key" and is_map(t[2][0], mp):
            there[t[2][1]] = x == ("=", 1)
        if t[0] == "discr" and t[1][0] == "call" and last(t[1][1]) in ("get", "get_mut") and is_map(t[1][2][0], mp):
            there[t[1][2][1]] = x == ("=", "+")
        if t[0] == "call" and last(t[1]) in ("is_none", "is_some") and t[2][0][0] == "call" and last(t[2][0][1]) == "get" and is_map(t[2][0][2][0], mp):
            there[t[2][0][2][1]] = (x == ("=", 1)) == (last(t[1]) == "is_some")
        if t[0] == "discr" and t[1][0] == "call" and last(t[1][1]) == "entry" and is_map(t[1][2][0], mp):
            there[t[1][2][1]] = x == ("=", "Occupied")
    for e in p.events:
        n, a = last(e[0]), e[1]
        if n in ("or_insert", "or_insert_with", "or_insert_with_key", "or_default") and a and a[0][0] == "call" and last(a[0][1]) == "entry" and is_map(a[0][2][0], mp):
            out.append((a[0][2][1], a[1] if len(a) > 1 else None, "first"))
            entries[e[2]] = len(out) - 1
        elif n == "store" and a[0][0] == "call" and a[0][-1] in entries:
            i = entries[a[0][-1]]
            out[i] = (out[i][0], a[1], "last")
        elif n == "and_modify" and a and a[0][0] == "call" and last(a[0][1]) == "entry" and is_map(a[0][2][0], mp):
            out.append((a[0][2][1], None, "?"))
        elif n in ("insert", "insert_entry") and a and is_map(a[0], mp) and len(a) == 3:
            known = there.get(a[1])
            out.append((a[1], a[2], "first" if known is False else "replaces" if known else "last"))
        elif n in ("insert", "insert_entry") and len(a) == 2 and a[0][0] == "fld" and a[0][1][0] == "call" and last(a[0][1][1]) == "entry" and is_map(a[0][1][2][0], mp):
            out.append((a[0][1][2][1], a[1], "first" if a[0][2] == "Vacant" else "replaces"))
        elif n in ("remove", "clear", "retain", "drain", "extend") and a and is_map(a[0], mp):
            out.append((None, None, "?"))
    return out, there


def judge(rep, P, what, f, ws, there, key=None):
    """the writes of one path against the policy of this build"""
    W = where(f)
    first = P.features == "default"
    if not ws:
        if True in there.values():
            return rep.check(what, "entry kept", first, W, "%s: the first of two definitions is kept, the last one should count in this build" % what)
        return None
    k, v, pol = ws[-1]
    if pol == "?":
        return None
    if first:
        return rep.check(what, "first definition counts", pol == "first", W, "%s: a later definition replaces the first one" % what)
    return rep.check(what, "last definition counts", pol in ("last", "replaces", "first") and (pol != "first" or there), W, "%s: the first of two definitions is kept, the last one should count in this build" % what)


def simple(rep, P, what, suffix):
    und = n = 0
    f = one(P, suffix)
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            und += 1
            continue
        ws, there = policy(p, ("fld", ("arg", 1), None, "0"), p.conds)
        r = judge(rep, P, what, f, ws, there)
        if r is None:
            und += 1
        else:
            n += 1
            for k, v, pol in ws:
                rep.check(what, "key", k == ("arg", 2), where(f), "%s is stored under %s" % (what, short(k)))
    if not n:
        und += 1
    return und


def characters(rep, P):
    return simple(rep, P, "dots of a character", "translator::CharacterDefinition::insert")


def translations(rep, P):
    return simple(rep, P, "translation of a character", "CharacterTranslation::insert")


def display(rep, P):
    f = one(P, "DisplayTable::compile")
    und = n = 0
    W = where(f)
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            und += 1
            continue
        el = [t for t, x in seq._elements(p, p.conds) if x == "+"]
        if len(el) != 1:
            continue
        rule = [x for k, x in p.conds.items() if k[0] == "discr" and k[1][0] == "fld" and k[1][3] == "rule" and el[0] in list(flow.walk(k))]
        if ("=", "Display") not in rule:
            continue
        mp = None
        for e in p.events:
            if last(e[0]) in ("entry", "insert", "contains_key", "get") and e[1]:
                mp = base_map(e[1][0])
                if mp[0] == "call" and last(mp[1]) in ("new", "default", "with_capacity") or mp[0] == "default":
                    break
                mp = None
        if mp is None:
            und += 1
            continue
        ws, there = policy(p, mp, p.conds)
        r = judge(rep, P, "display", f, ws, there)
        if r is None:
            und += 1
        n += r is not None
        base, ops = seq.stages(seq.loop_base(el[0])[0])
        rep.check("order", "display rules", not [o for o, _ in ops if o in ("rev", "dedup")], W, "display rules are gone through backwards")
    return und + (not n)


GT = {"gt": ("new", 1), "lt": ("old", 1), "ge": ("new", 0), "le": ("old", 0)}


def compared(k, x, node):
    """what a comparison of the new precedence with the stored one says: 'above' | 'not above' | 'equal or above' | 'below' | None"""
    NEW = ("arg", 7)

    def old(t):
        return node in list(flow.walk(t)) and any(y[0] == "call" and last(y[1]) == "precedence" or y[0] == "fld" and y[3] == "precedence" for y in flow.walk(t))
    if k[0] == "call" and last(k[1]) in ("gt", "lt", "ge", "le") and len(k[2]) == 2:
        a, b, op = k[2][0], k[2][1], last(k[1])
    elif k[0] == "bin" and k[1] in ("Gt", "Lt", "Ge", "Le"):
        a, b, op = k[2], k[3], k[1].lower()
    else:
        return None
    if old(a) and b == NEW:
        a, b, op = b, a, {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}[op]
    if not (a == NEW and old(b)) or x[0] != "=" or x[1] not in (0, 1):
        return None
    return {("gt", 1): "above", ("gt", 0): "not above", ("le", 1): "not above", ("le", 0): "above",
            ("ge", 1): "equal or above", ("ge", 0): "below", ("lt", 1): "below", ("lt", 0): "equal or above"}[(op, x[1])]


def eqne(k):
    return k[0] == "call" and last(k[1]) in ("eq", "ne") or k[0] == "bin" and k[1] in ("Eq", "Ne")


def constructed(P, v):
    """precedence a stored translation carries: a term, or None"""
    while v[0] == "agg" and v[2] == "Some":
        v = v[4][0]
    if v[0] == "agg" and "precedence" in v[3]:
        t = v[4][v[3].index("precedence")]
        if t[0] == "fld" and t[3] == "precedence":
            return constructed(P, t[1])
        return t
    if v[0] == "call" and v[1] in P.fns:
        rs = set()
        for p in flow.Flow(P).paths(P.fns[v[1]], list(v[2])):
            if p.trunc or p.div:
                return None
            rs.add(constructed(P, p.ret) if p.ret[0] == "agg" else None)
        if len(rs) == 1:
            return rs.pop()
    return None


def trie(rep, P):
    f = one(P, "translator::trie::Trie::insert")
    W = where(f)
    first = P.features == "default"
    und = n = 0
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            und += 1
            continue
        stores = [e for e in p.events if last(e[0]) in ("store", "insert", "replace", "get_or_insert", "get_or_insert_with") and e[1] and e[1][0][0] == "fld" and e[1][0][3] == "translation"]
        tests = [(k, x) for k, x in p.conds.items() if k[0] == "discr" and k[1][0] == "fld" and k[1][3] == "translation"]
        tests += [(("discr", k[2][0]), ("=", "+" if (x == ("=", 1)) == (last(k[1]) == "is_some") else "-")) for k, x in p.conds.items()
                  if k[0] == "call" and last(k[1]) in ("is_some", "is_none") and k[2][0][0] == "fld" and k[2][0][3] == "translation"]
        if not tests:
            if not stores:
                # nothing is inserted at all, for an empty rule
                if not [e for e in p.events if last(e[0]) == "entry"]:
                    continue
            und += 1
            continue
        node = tests[-1][0][1]
        occupied = tests[-1][1] == ("=", "+")
        put = [e for e in stores if e[1][0] == node]
        if stores and not put:
            rep.bad("rules", "stored where they were looked for", W, "a rule is stored in another place than the one that was looked at")
            continue
        n += 1
        if not occupied:
            rep.check("rules", "first rule is stored", bool(put), W, "a rule is not put into the table although there is none like it")
        else:
            rel = [compared(k, x, node) for k, x in p.conds.items()]
            rel = [r for r in rel if r]
            if not rel and [k for k in p.conds if ("arg", 7) in list(flow.walk(k)) and node in list(flow.walk(k)) and not eqne(k)]:
                und += 1
                continue
            if not rel:
                if put:
                    rep.check("rules", "compared with the rule that is there", not first and False, W, "a rule replaces another one of any precedence")
                else:
                    rep.bad("rules", "compared with the rule that is there", W, "a rule of higher precedence does not replace another one")
                continue
            r = rel[-1]
            if r == "above":
                rep.check("rules", "higher precedence wins", bool(put), W, "a rule of higher precedence does not replace the one that is there")
            elif r == "not above":
                if first:
                    rep.check("rules", "first of two equal rules wins", not put, W, "a rule replaces an earlier one of the same or a higher precedence")
                else:
                    rep.check("rules", "last of two equal rules wins", bool(put), W, "the last of two equal rules is not the one that counts")
            elif r == "equal or above":
                if first:
                    rep.bad("rules", "first of two equal rules wins", W, "a rule replaces an earlier one of the same precedence" if put else "a rule of higher precedence does not replace the one that is there")
                else:
                    rep.check("rules", "last of two equal rules wins", bool(put), W, "the last of two equal rules is not the one that counts")
            elif r == "below":
                rep.check("rules", "lower precedence", not put or not first, W, "a rule replaces one of higher precedence")
        for e in put:
            pr = constructed(P, e[1][1])
            if pr is None:
                und += 1
                continue
            rep.check("rules", "stored with its precedence", pr == ("arg", 7), W, "a rule is stored with the precedence %s instead of its own" % short(pr))
    rep.count("ways a rule is put into the trie", n)
    return und + (not n)


def order(rep, P):
    """rules are gone through in the order of the table"""
    und = n = 0
    for s in ("translator::table::TableContext::compile", "translator::table::primary::PrimaryTable::compile", "translator::DisplayTable::compile", "translator::pipeline::TranslationPipeline::compile"):
        fs = [f for p, f in P.fns.items() if p.endswith(s)]
        if len(fs) != 1:
            und += 1
            continue
        f = fs[0]
        todo, seen = [f], set()
        while todo:
            g = todo.pop()
            if g.path in seen:
                continue
            seen.add(g.path)
            for c in g.calls():
                nme = c.name or ""
                if nme in P.fns and nme not in P.baseline and nme not in seen:
                    todo.append(P.fns[nme])
                if last(nme) in ("rev", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "next_back", "pop", "swap", "rsplitn", "rotate_left", "rotate_right") and c.args:
                    t = g.oty(c.args[0])
                    s2 = P.tstr(t) if t is not None else ""
                    if "AnchoredRule" in s2:
                        rep.bad("order", "%s of the rules in %s" % (last(nme), s.split("::")[-2]), c.loc(), "the rules are not gone through in the order of the table: " + last(nme))
        n += 1
        rep.ok("order", s)
    return und


def levels(rep, P):
    return c12.precedence(rep, P)


def kept(rep, P):
    import rules.record as r
    return r.record(rep, P, ("precedence",))


def run(rep, L, B):
    rep.parts([characters, translations, display, trie, order, levels, kept], L)
