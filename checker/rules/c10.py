"""C10: includes are expanded in place, and a bad include is an error, never a hang."""
import flow
import seq
from terms import last, short
from rules.c12 import one, where

EXPLANATION = ("Provenance of the results of the functions that expand includes, on every path: what is returned for an include, in which order, with which chain of "
               "tables being expanded the recursion goes on, and which test stands before it. The predicate by which tables held in memory refuse includes is evaluated for every kind of rule.")
LEVEL = "other"
ASSUMPTIONS = ["two tables are the same when their canonical paths are", "SearchPath::find_file gives the first existing file of that name"]


def error_kind(v):
    if v is None:
        return None
    for x in flow.walk(v):
        if x[0] == "agg" and x[1].endswith("TableError"):
            return x
    return None


def cond(c, pred):
    return [(k, x) for k, x in c.items() if pred(k)]


def calls_of(p, name):
    return [e for e in p.events if last(e[0]) == name]


def expanded(rep, L, B):
    f = one(L, "parser::table_expanded_with")
    W = where(f)
    und = 0
    FILE, SP, CHAIN = ("arg", 1), ("arg", 2), ("arg", 3)
    kinds = set()
    for p in flow.Flow(L).paths(f):
        if p.trunc or p.div:
            und += 1
            continue
        ev = seq.events(p)
        for c, o, v in seq.results(L, p):
            found = cond(c, lambda k: k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) == "find_file")
            if len(found) != 1:
                und += 1
                continue
            find = found[0][0][1]
            rep.check("find", "the file asked for, on the search path", find[2] == (SP, FILE), W, "not the file that is included is looked for: %s" % short(find))
            path = ("fld", find, "+", "0")
            is_path = lambda t: t in (path, ("fld", find, "Some", "0"))
            k = error_kind(v) if o == "err" else None
            if found[0][1] == ("=", "-"):
                kinds.add("missing")
                if rep.check("missing", "is an error", o == "err", W, "a table that cannot be found is passed over"):
                    rep.check("missing", "kind", bool(k) and k[2] == "TableNotFound", W, "a table that cannot be found is reported as %s" % (k[2] if k else short(v)))
                    if k and k[4]:
                        rep.check("missing", "names the file", k[4][0] == FILE, W, "the table reported as missing is %s" % short(k[4][0]))
                continue
            canon = cond(c, lambda k: k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) == "canonicalize")
            if canon and canon[0][1] == ("=", "-"):
                rep.check("missing", "unreadable", o == "err", W, "a table whose path cannot be read is passed over")
                continue
            loop = cond(c, lambda k: k[0] == "call" and last(k[1]) == "contains" and seq.stages(k[2][0])[0] == CHAIN)
            depth = cond(c, lambda k: k[0] == "bin" and k[1] in ("Ge", "Gt", "Lt", "Le") and
                         any(x[0] == "call" and last(x[1]) == "len" and x[2][0] == CHAIN for x in k[2:4]) and any(x[0] == "const" for x in k[2:4]))
            if any(x[0] == "call" and last(x[1]) in ("any", "find", "position", "is_some") for k in c for x in flow.walk(k)):
                und += not loop
                if not loop:
                    continue
            rec = [e for e in p.events if last(e[0]) in ("expand_includes", "table_file")]
            deep = None
            for t, x in depth:
                op, a, b = t[1], t[2], t[3]
                if a[0] == "const":
                    op, a, b = {"Ge": "Le", "Gt": "Lt", "Lt": "Gt", "Le": "Ge"}[op], b, a
                more = op in ("Ge", "Gt")
                deep = (x == ("=", 1)) == more
                limit = b[1]
                rep.check("depth", "limit", 1 < limit <= 512, W, "includes are followed to a depth of %s" % limit)
            same = loop[0][1] == ("=", 1) if loop else None
            for t, x in loop:
                a = t[2][1]
                rep.check("cycle", "compared by canonical path", a[0] == "fld" and a[1][0] == "call" and last(a[1][1]) == "canonicalize" and is_path(a[1][2][0]),
                          W, "a table that includes itself is looked for as %s" % short(a))
            if o == "err" and k is not None and not rec:
                if k[2] == "IncludeTooDeep":
                    kinds.add("deep")
                    rep.check("depth", "only where too deep", deep is True, W, "a table is refused as too deep although it is not")
                elif k[2] == "CircularInclude":
                    kinds.add("cycle")
                    rep.check("cycle", "only where it is one", same is True, W, "a table is refused as including itself although it does not")
                elif k[2] == "TableNotReadable":
                    pass
                else:
                    rep.bad("missing", "kind of error " + k[2], W, "an include fails as %s" % k[2])
                continue
            # the table is read and its includes are expanded
            rep.check("cycle", "looked for before going on", same is False, W, "a table is expanded without looking whether it is being expanded already")
            rep.check("depth", "looked at before going on", deep is False, W, "includes are followed to any depth")
            src = v
            while src[0] == "fld":
                src = src[1]
            name = last(src[1]) if src[0] == "call" else ""
            kinds.add("expand" if name == "expand_includes" else name)
            tf = [k2 for k2 in c if k2[0] == "discr" and k2[1][0] == "call" and last(k2[1][1]) == "table_file"]
            if not tf:
                und += 1
                continue
            rep.check("expand", "reads the file found", is_path(tf[0][1][2][0]), W, "not the file found is read: %s" % short(tf[0][1][2][0]))
            if c[tf[0]] == ("=", "-"):
                rep.check("expand", "errors of the file", o == "err", W, "errors in an included table are dropped")
                continue
            if name != "expand_includes":
                if o == "ok":
                    rep.bad("expand", "includes inside", W, "the includes of an included table are not expanded")
                continue
            rules, sp, chain = src[2]
            rep.check("expand", "its rules", rules[0] == "fld" and rules[1] == tf[0][1], W, "not the rules of the file are expanded: %s" % short(rules))
            rep.check("expand", "search path", sp == SP, W, "includes inside are looked for elsewhere")
            rep.check("expand", "errors inside", (c[("discr", src)] == ("=", "-")) == (o == "err"), W, "errors in included tables are dropped")
            its = [("all", chain)] if seq.stages(chain) == (CHAIN, []) else seq.items(chain, ev)
            one_ = [x for kd, x in its if kd == "one"]
            all_ = [x for kd, x in its if kd == "all"]
            if chain[0] == "mut" and not all_:
                # the copy of the chain itself is what was pushed to
                base = chain
                while base[0] == "mut":
                    base = base[3]
                all_ = [base]
            rep.check("cycle", "the tables above stay in the chain", len(all_) == 1 and seq.stages(all_[0])[0] == CHAIN and not seq.stages(all_[0])[1], W, "the tables being expanded are forgotten")
            rep.check("cycle", "the table itself joins the chain", any(x[0] == "fld" and x[1][0] == "call" and last(x[1][1]) == "canonicalize" and is_path(x[1][2][0]) for x in one_), W,
                      "the table being expanded is not remembered under its canonical path")
    for k in ("missing", "deep", "cycle", "expand"):
        rep.check("cases", k, k in kinds or und, W, "no path for the case: " + k)
    return und


def mentions_dic(P, t):
    for x in flow.walk(t):
        if x == ("str", "dic") or x == ("str", ".dic"):
            return True
        if x[0] == "closure" and x[1] in P.fns:
            for p in flow.Flow(P).paths(P.fns[x[1]], [x, ("arg", 2)]):
                if any(y == ("str", "dic") for k in list(p.conds) + [p.ret] if k for y in flow.walk(k)):
                    return True
    return False


def single(rep, L, B):
    f = one(L, "parser::expand_include")
    W = where(f)
    und = 0
    RULE, SP, CHAIN = ("arg", 1), ("arg", 2), ("arg", 3)
    d = ("discr", ("fld", RULE, None, "rule"))
    FILE = ("fld", ("fld", RULE, None, "rule"), "Include", "file")
    plain = lambda t: t == FILE or t[0] == "call" and last(t[1]) in ("new", "as_ref", "from", "as_path", "into", "borrow", "deref") and len(t[2]) == 1 and plain(t[2][0])
    for p in flow.Flow(L).paths(f):
        if p.trunc or p.div:
            und += 1
            continue
        x = p.conds.get(d)
        ev = seq.events(p)
        if x is None:
            und += 1
            continue
        inc = x == ("=", "Include")
        for c, o, v in seq.results(L, p):
            if not inc:
                if x[0] == "=" or "Include" in x[1]:
                    if rep.check("other rules", "kept", o == "ok", W, "a rule that is no include is an error"):
                        rep.check("other rules", "kept as they are", [b for a, b in seq.items(v, ev)] == [RULE], W, "a rule that is no include comes out as %s" % short(v)[:80])
                else:
                    und += 1
                continue
            dic = [(k, y) for k, y in c.items() if k != d and mentions_dic(L, k)]
            rec = [k for k in c if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) == "table_expanded_with"]
            find = [k for k in c if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) == "find_file"]
            if not dic:
                if o == "ok" and v[0] != "fld":
                    rep.bad("include", "expanded", W, "an include is passed on as %s" % short(v)[:80])
                else:
                    und += 1
                continue
            t, y = dic[0]
            hyph = y == ("=", 1) or t[0] == "bin" and t[1] == "Ne" and y == ("=", 0)
            if t[0] == "bin" and t[1] == "Ne" and y == ("=", 1):
                hyph = False
            if hyph:
                rep.check("hyphenation", "only .dic", any(plain(z) for z in flow.walk(t)), W, "the ending of something else is looked at: %s" % short(t))
                if len(find) != 1:
                    rep.check("hyphenation", "no table", not rec, W, "a hyphenation file is read as a table")
                    und += not rec
                    continue
                fc = find[0][1]
                rep.check("hyphenation", "looked for", fc[2][0] == SP and plain(fc[2][1]), W, "not the hyphenation file named is looked for")
                if c[find[0]] == ("=", "-"):
                    k = error_kind(v) if o == "err" else None
                    rep.check("hyphenation", "missing file", o == "err" and bool(k) and k[2] == "HyphenationTableNotFound" and plain(k[4][0]), W, "a missing hyphenation file is not reported as such")
                    continue
                if not rep.check("hyphenation", "kept", o == "ok", W, "a hyphenation file that exists is an error"):
                    continue
                its = seq.items(v, ev)
                if len(its) != 1 or its[0][0] != "one":
                    rep.bad("hyphenation", "kept as one rule", W, "a hyphenation file becomes %d rules" % len(its))
                    continue
                r = its[0][1]
                if r[0] == "call" and last(r[1]) == "new":
                    rule, path, line = r[2]
                elif r[0] == "agg":
                    rule, path, line = [r[4][r[3].index(n)] for n in ("rule", "path", "line")]
                else:
                    und += 1
                    continue
                rep.check("hyphenation", "rule", rule[0] == "agg" and rule[2] == "IncludeHyphenation" and rule[4][0] in (("fld", fc, "+", "0"), ("fld", fc, "Some", "0")), W,
                          "the hyphenation file is handed on as %s" % short(rule))
                rep.check("hyphenation", "place", path == ("fld", RULE, None, "path") and line == ("fld", RULE, None, "line"), W, "the place of the include is lost")
                continue
            if not rec:
                if find or o == "ok":
                    rep.bad("include", "expanded", W, "an include of a table is not expanded")
                else:
                    rep.bad("include", "expanded", W, "an include of a table is an error")
                continue
            rc = rec[0][1]
            rep.check("include", "the table named", plain(rc[2][0]), W, "not the table that is named is included: %s" % short(rc[2][0]))
            rep.check("include", "search path", rc[2][1] == SP, W, "the search path is lost")
            rep.check("include", "chain", rc[2][2] == CHAIN, W, "the tables being expanded are not handed on: %s" % short(rc[2][2]))
            rep.check("include", "errors", (c[rec[0]] == ("=", "-")) == (o == "err"), W, "errors of an included table are dropped")
            if o == "ok":
                rep.check("include", "its rules", v[0] == "fld" and v[1] == rc, W, "not the rules of the included table come in its place: %s" % short(v)[:80])
    return und


def collected(rep, L, B):
    f = one(L, "parser::expand_includes")
    W = where(f)
    C = seq.collector(L, f)
    und = 0
    for b in C.bad:
        rep.bad("all rules", b, W, b)
    rep.check("all rules", "of the table", C.src == ("arg", 1), W, "not the rules given are expanded: %s" % short(C.src))
    for op, _ in C.steps:
        if op in ("rev", "skip", "take", "step_by", "filter", "skip_while", "take_while"):
            rep.bad("all rules", op, W, "not every rule is kept in its place: " + op)
        elif op not in ("enumerate", "inspect"):
            und += 1
    rep.check("all rules", "rules come in place of the include", C.flat_ok, W, "the rules of an include do not come in its place")
    rep.check("all rules", "all errors", C.flat_err, W, "not all errors of the includes are kept")
    for c, o, v in C.outcomes:
        if o == "skip":
            rep.bad("all rules", "skipped", W, "a rule is left out")
            continue
        t = v[1] if v[0] == "fld" else v
        if t[0] == "call" and last(t[1]) == "expand_include":
            sp = t[2][1]
            ok = t[2][0] == C.elem and t[2][2] in (("arg", 3), ("fld", ("arg", 1), None, "chain")) and sp in (("arg", 2), ("fld", ("arg", 1), None, "search_path"))
            rep.check("all rules", "each with the chain", ok, W, "a rule is expanded with another search path or chain: %s" % short(t))
        elif o == "ok" and v == C.elem:
            und += 1
        else:
            und += 1
    return und


def entry(rep, L, B):
    und = 0
    f = one(L, "parser::table_expanded")
    W = where(f)
    for p in flow.Flow(L).paths(f):
        t = p.ret
        if not (t[0] == "call" and last(t[1]) == "table_expanded_with"):
            und += 1
            continue
        rep.check("entry", "file", t[2][0] == ("arg", 1), W, "not the file given is expanded")
        sp = t[2][1]
        rep.check("entry", "search path", sp[0] == "call" and sp[2][:1] == (("str", "LOUIS_TABLE_PATH"),), W, "tables are not looked for in LOUIS_TABLE_PATH")
        ch = t[2][2]
        if ch[0] in ("array", "call"):
            rep.check("entry", "empty chain", ch[0] == "array" and not ch[1] or ch[0] == "call" and last(ch[1]) == "new", W, "the chain of tables does not begin empty")
        else:
            und += 1
    # tables held in memory
    f = one(L, "Translator::from_table_source")
    W = where(f)
    adt = [a for a in L.adts if a.endswith("parser::Rule")][0]
    variants = [v["name"] for v in L.adts[adt]["variants"]]
    n = 0
    for p in flow.Flow(L, loop_bound=1).paths(f):
        if p.trunc or p.div:
            und += 1
            continue
        anys = [(k, x) for k, x in p.conds.items() if k[0] == "call" and last(k[1]) in ("any", "all")]
        compiled = [e for e in p.events if last(e[0]) == "compile"]
        k = error_kind(p.ret)
        if len(anys) != 1:
            if compiled and not any(any(y == "Include" for y in (x[1] if isinstance(x[1], (set, frozenset)) else [x[1]])) for x in p.conds.values()):
                its = [t for t, x in seq._elements(p, p.conds)]
                if its:
                    und += 1
                else:
                    rep.bad("memory", "includes refused", W, "a table held in memory is compiled without looking for includes")
            continue
        n += 1
        t, x = anys[0]
        base, ops = seq.stages(t[2][0])
        rep.check("memory", "all rules looked at", base[0] == "fld" and base[1][0] == "call" and last(base[1][1]) == "table" and not ops, W, "not all rules are looked at for includes")
        pr = seq.predicate(L, t[2][1], lambda e: ("fld", e, None, "rule"), variants)
        neg = last(t[1]) == "all"
        inc = None
        for v in variants:
            vals = {a for _, a in pr[v]}
            if vals == {int(v == "Include") ^ neg}:
                rep.ok("memory", "look for includes: " + v)
            elif vals <= {0, 1}:
                rep.bad("memory", "look for includes: " + v, W, "%s %s taken for an include in tables held in memory" % (v, "is not" if v == "Include" else "is"))
            else:
                und += 1
        has = (x == ("=", 1)) ^ neg
        if has:
            rep.check("memory", "includes refused", not compiled and bool(k) and k[2] == "IncludesNotSupportedInMemory", W, "an include in a table held in memory is not refused as such")
        else:
            rep.check("memory", "others compiled", bool(compiled), W, "a table without includes is refused")
            for e in compiled:
                r = e[1][0]
                rep.check("memory", "its rules compiled", r == base, W, "not the rules of the table are compiled")
    if not n:
        und += 1
    return und


def run(rep, L, B):
    rep.parts([expanded, single, collected, entry], L, B)
