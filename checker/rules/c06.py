"""C06: nofor, noback and nocross are kept by the parser and honoured by the compiler."""
import flow
from prog import AnchorError
from terms import last, src, callee, short, calls_in, mentions, entries
from rules.c07 import method, impl

EXPLANATION = ("Path-splitting dataflow with constant propagation over constraint sets. The words nofor, noback and nocross in front of an "
               "opcode are followed from the token stream into the constraint set, through the per-opcode list of allowed constraints into the "
               "rule that is built, from there (by evaluating the direction and nocross queries for every rule and every allowed set) to the "
               "directions a rule belongs to, and from there to the filters in front of every table that is compiled.")
LEVEL = "other"
ASSUMPTIONS = ["grouping rules never translate anything, so their constraints need not be kept",
               "a result the dataflow cannot reduce to a constant counts as undecided, not as wrong"]
WORDS = {"nofor": "Nofor", "noback": "Noback", "nocross": "Nocross"}
INERT = {"Grouping"}          # opcode is accepted, the rule takes part in no translation
ALL = frozenset(WORDS.values())
# opcodes that liblouis documents as taking nocross
RULE, CONS, DIR = "crate::parser::Rule", "crate::parser::Constraints", "crate::Direction"


def setlit(t):
    """the literal constraint set in a term, or None"""
    if t[0] == "set":
        return None if t[2] else frozenset(t[1])
    if t[0] == "agg" and t[4] and len(t[4]) == 1:
        return setlit(t[4][0])
    if t[0] == "call" and last(t[1]) in ("empty", "new") and not t[2]:
        return frozenset()
    if t[0] == "call" and last(t[1]) == "all" and not t[2]:
        return ALL
    return None


def run(rep, L, B):
    P = L
    und = parse(rep, P)
    allowed, u = build(rep, P)
    und += u
    und += subset(rep, P)
    und += query(rep, P, allowed)
    und += filters(rep, P)
    und += nocross(rep, P)
    rep.count("undecided", und)


def parse(rep, P):
    f = method(P, "RuleParser", "constraints")
    loc = "%s:%d" % (f.file, f.line)
    und = n = 0
    for p in flow.Flow(P, inline_pred=lambda g: last(g.path) in WORDS or "Constraints" in g.path).paths(f):
        if p.trunc or p.div:
            continue
        took, asked = set(), {}
        for c, v in p.conds.items():
            if c[0] == "discr":
                t = src(c[1])
                if t[0] == "call" and last(t[1]) in ("next_if_eq", "next_if") and t[2][-1][0] == "str":
                    asked[t[2][-1][1]] = v == ("=", "+")
        took = {w for w, y in asked.items() if y}
        got = setlit(p.ret)
        if got is None or not set(asked) <= set(WORDS):
            und += 1
            continue
        n += 1
        rep.check("parse", "words %s" % sorted(asked.items()), got == frozenset(WORDS[w] for w in took), loc,
                  "after the words %s the constraints are %s" % (sorted(took), sorted(got)))
        rep.check("parse", "words %s looked for" % sorted(asked.items()), "nocross" in asked and "nofor" in asked and ("noback" in asked or "nofor" in took), loc,
                  "the prefix words looked for are only %s" % sorted(asked))
    rep.floor("constraint prefixes resolved (paths)", n, 5)
    return und


def build(rep, P):
    f = method(P, "RuleParser", "rule")
    loc = "%s:%d" % (f.file, f.line)
    und, allowed, seen = 0, {}, set()
    for p in flow.Flow(P, inline_pred=lambda g: "Constraints" in g.path and g.path.endswith("::empty")).paths(f):
        if p.trunc or p.div or p.ret[0] != "agg" or p.ret[2] != "Ok" or p.ret[4][0][0] != "agg":
            continue
        r = p.ret[4][0]
        lits = [(setlit(e[1][0]), e[1][1]) for e in p.events if last(e[0]) == "fail_if_invalid_constraints"]
        if any(s is None for s, _ in lits):
            und += 1
            continue
        al = ALL
        for s, actual in lits:
            rep.check("allowed", "%s checks its own prefix" % r[2], any(last(c[1]) == "constraints" for c in calls_in(actual)) or setlit(actual) is None and actual[0] != "set", loc,
                      "the constraints checked for %s are not the ones in the table line" % r[2])
            al = al & s
        # every allowed prefix ends up in the rule
        seen.add(r[2])
        allowed[r[2]] = allowed.get(r[2], frozenset()) | al
        if not al or r[2] in INERT:
            continue
        if not rep.check("kept", "%s has constraints" % r[2], "constraints" in r[3], loc,
                         "%s accepts %s in front of it and then drops it" % (r[2], "/".join(sorted(al)))):
            continue
        v = r[4][r[3].index("constraints")]
        ok = v[0] == "call" and last(v[1]) == "constraints" and "RuleParser" in v[1]
        lit = setlit(v)
        if ok:
            rep.ok("kept", "%s keeps its prefix" % r[2])
        elif lit is not None:
            rep.bad("kept", "%s keeps its prefix" % r[2], loc, "%s replaces the constraints in front of it by %s" % (r[2], sorted(lit)))
        elif not any(last(c[1]) == "constraints" for c in calls_in(v)):
            rep.bad("kept", "%s keeps its prefix" % r[2], loc, "the constraints of %s do not come from its table line" % r[2])
        else:
            und += 1
    rep.floor("opcodes whose constraints were followed", len(seen), 100)
    return allowed, und


def subset(rep, P):
    fs = [f for f in P.fns.values() if f.path.endswith("::fail_if_invalid_constraints")]
    und = n = 0
    for f in fs:
        for p in flow.Flow(P, inline_pred=lambda g: "Constraints" in g.path).paths(f):
            if p.trunc or p.div or p.ret[0] != "agg":
                continue
            cs = [(c, v) for c, v in p.conds.items() if c[0] == "call" and last(c[1]) in ("is_subset", "is_superset")]
            if len(cs) != 1:
                und += 1
                continue
            c, v = cs[0]
            a, b = c[2][0], c[2][1]
            if last(c[1]) == "is_superset":
                a, b = b, a
            n += 1
            A, B_ = {x for x in flow.walk(a) if x[0] == "arg"}, {x for x in flow.walk(b) if x[0] == "arg"}
            rep.check("subset", "which set must contain which", A == {("arg", 2)} and B_ == {("arg", 1)}, "%s:%d" % (f.file, f.line),
                      "constraints are accepted when the allowed ones are a subset of the given ones")
            rep.check("subset", "outcome %s" % (v[1],), (p.ret[2] == "Ok") == (v in (("=", 1), ("=", True))), "%s:%d" % (f.file, f.line),
                      "a constraint the opcode does not allow is accepted")
    rep.count("constraint admission paths", n)
    return und


def rule_arg(v, cons):
    return ("agg", RULE, v, ("constraints",), (("agg", CONS, "Constraints", ("0",), (("set", frozenset(cons), ()),)),))


def query(rep, P, allowed):
    und = n = 0
    fd = impl(P, "parser::Rule as parser::HasDirection", "directions") if any("parser::Rule as parser::HasDirection" in p for p in P.fns) else \
        [f for p, f in P.fns.items() if p.endswith("::directions") and "parser::Rule as" in p][0]
    fc = [f for p, f in P.fns.items() if p.endswith("::constraints") and "HasNocross" in p and "parser::Rule as" in p]
    fl = flow.Flow(P, inline_pred=lambda g: "Constraints" in g.path)
    subsets = [frozenset(), frozenset(["Nofor"]), frozenset(["Noback"]), frozenset(["Nocross"]), frozenset(["Nofor", "Nocross"]), frozenset(["Noback", "Nocross"])]
    variants = [v["name"] for v in P.adts[[a for a in P.adts if a.endswith("parser::Rule")][0]]["variants"]]
    for v in variants:
        al = allowed.get(v, frozenset())
        for s in subsets:
            if not s <= al or v in INERT and s:
                continue
            want = {"Backward"} if "Nofor" in s else {"Forward"} if "Noback" in s else {"Forward", "Backward"}
            rs = {setlit(p.ret) for p in fl.paths(fd, [rule_arg(v, s)]) if not p.trunc and not p.div}
            if None in rs or not rs:
                und += 1
            else:
                n += 1
                rep.check("direction", "%s %s" % (v, "+".join(sorted(s)) or "-"), rs == {frozenset(want)}, "%s:%d" % (fd.file, fd.line),
                          "a %s rule with %s belongs to %s instead of %s" % (v, "+".join(sorted(s)) or "no constraint", [sorted(r) for r in rs], sorted(want)))
            if len(fc) == 1 and "Nocross" in al:
                rs = {setlit(p.ret) for p in fl.paths(fc[0], [rule_arg(v, s)]) if not p.trunc and not p.div}
                if None in rs or not rs:
                    und += 1
                else:
                    n += 1
                    rep.check("nocross", "%s %s" % (v, "+".join(sorted(s)) or "-"), all(("Nocross" in r) == ("Nocross" in s) for r in rs), "%s:%d" % (fc[0].file, fc[0].line),
                              "a %s rule with %s reports the constraints %s" % (v, "+".join(sorted(s)), [sorted(r) for r in rs]))
    rep.floor("direction and nocross queries resolved", n, 250)
    # the queries themselves
    for name, base, what in (("is_direction", "directions", ("arg", 2)), ("is_nocross", "constraints", "Nocross")):
        for f in [f for p, f in P.fns.items() if p.endswith("::" + name)]:
            for p in flow.Flow(P).paths(f):
                if p.trunc or p.div:
                    continue
                r = p.ret
                ok = None
                if r[0] == "call" and last(r[1]) == "contains":
                    a, b = r[2][0], r[2][1]
                    good = b == what if isinstance(what, tuple) else what in {x[2] for x in flow.walk(b) if x[0] == "agg"} | set(b[1] if b[0] == "set" else ())
                    ok = good and any(last(c[1]) == base for c in calls_in(a))
                elif r[0] in ("const",) or r[0] == "un":
                    ok = False
                if ok is None:
                    und += 1
                else:
                    rep.check("query", f.path, ok, "%s:%d" % (f.file, f.line), "%s does not report what %s contains" % (f.path, base))
    # delegation from the rule with its location
    for p_, f in P.fns.items():
        if last(p_) in ("directions", "constraints", "precedence") and "AnchoredRule as" in p_:
            for p in flow.Flow(P).paths(f):
                ok = p.ret[0] == "call" and last(p.ret[1]) == last(p_) and p.ret[2][0][0] == "fld" and p.ret[2][0][3] == "rule"
                if p.ret[0] in ("agg", "set", "const") or p.ret[0] == "call" and not ok:
                    rep.bad("query", p_, "%s:%d" % (f.file, f.line), "%s does not ask the rule it holds" % p_)
                else:
                    rep.ok("query", p_)
    return und


COMPILERS = ("PrimaryTable::compile", "MultipassTable::compile", "DisplayTable::compile", "TableContext::compile")


def filters(rep, P):
    """every table is compiled from rules filtered by the direction it is compiled for"""
    und = n = 0
    for f in entries(P, lambda c: any(c.endswith(k) for k in COMPILERS[:2])):
        for p in flow.Flow(P).paths(f):
            if p.trunc:
                continue
            for e in p.events:
                if not any(e[0].endswith(k) for k in COMPILERS[:2]):
                    continue
                n += 1
                what = e[0].split("::")[-2]
                ok = filtered(P, e[1][0], e[1][1], list(p.conds.items()))
                if ok is None:
                    und += 1
                    continue
                rep.check("filter", "%s -> %s" % (f.path, what), ok, e[3] if len(e) > 3 else "%s:%d" % (f.file, f.line),
                          "%s is compiled from rules that are not restricted to its direction" % what)
    for f in [f for p, f in P.fns.items() if p.endswith("DisplayTable::compile")]:
        for p in flow.Flow(P).paths(f):
            its = [e for e in p.events if last(e[0]) in ("into_iter", "iter")]
            nx = [e for e in p.events if last(e[0]) in ("next", "for_each", "collect", "fold", "extend")]
            if not nx or p.trunc:
                continue
            n += 1
            ok = any(filtered(P, a, ("arg", 2)) in (True, None) for e in nx for a in e[1])
            # a filter may also be a test inside the loop
            ok = ok or any(c[0] == "call" and last(c[1]) == "is_direction" for c in p.conds)
            rep.check("filter", f.path, ok, "%s:%d" % (f.file, f.line), "display rules of the other direction take part")
    rep.floor("table compilations with a direction filter", n, 5)
    return und


def filtered(P, t, direction, conds=()):
    """True: filtered by this direction, False: certainly not, None: cannot tell"""
    asks = lambda c: c[0] == "call" and last(c[1]) == "is_direction"
    unknown = False
    for x in flow.walk(t):
        if x[0] == "mut" and last(x[2]) in ("push", "extend", "extend_from_slice", "insert", "push_back"):
            unknown = True      # collected by hand: look at the tests on the way
            if any(asks(c) and v == ("=", 1) and direction in c[2] for c, v in conds):
                return True
        if x[0] == "call" and last(x[1]) in ("filter", "filter_map", "partition", "flat_map", "skip_while", "take_while") or x[0] == "mut" and last(x[2]) in ("retain", "extract_if"):
            for y in flow.walk(x):
                if y[0] != "closure" or y[1] not in P.fns:
                    unknown = unknown or y[0] == "fn"
                    continue
                dirs = direction in list(flow.walk(("tuple", y[2])))
                for q in flow.Flow(P).paths(P.fns[y[1]]):
                    r = q.ret
                    if asks(r) and dirs:
                        return True
                    if any(asks(c) and v == ("=", 1) for c, v in q.conds.items()) and r in (("const", 1), ("const", True)) and dirs:
                        return True
                    if any(asks(c) for c in q.conds) and r[0] == "agg" and dirs:
                        return True
    if unknown and not any(asks(c) for c, v in conds):
        return None
    return None if unknown else False


def nocross(rep, P):
    """nocross rules go into their own trie, whose candidates are dropped when they cross a break"""
    und = n = 0
    for f in [f for p, f in P.fns.items() if p.endswith("::get_trie_mut")]:
        for p in flow.Flow(P).paths(f):
            cs = [v for c, v in p.conds.items() if c[0] == "call" and last(c[1]) == "is_nocross"]
            r = p.ret
            if len(cs) == 1 and r[0] == "fld":
                n += 1
                rep.check("nocross", "trie for nocross=%s" % (cs[0][1],), (r[3] == "nocross_trie") == (cs[0] == ("=", 1)), "%s:%d" % (f.file, f.line),
                          "nocross rules are stored among the plain rules")
            else:
                und += 1
    for f in [f for p, f in P.fns.items() if p.endswith("::nocross_candidates")]:
        loc = "%s:%d" % (f.file, f.line)
        for p in flow.Flow(P).paths(f):
            n += 1
            rep.check("nocross", "candidates are checked for breaks", mentions(P, p.ret, lambda c: last(c) == "hyphenation_break_at"), loc,
                      "nocross candidates are not checked against the hyphenation points")
    rep.count("nocross sites", n)
    return und
