"""C11: a text is translated in stages, each fed with the output of the stage before it."""
import flow
import seq
from prog import AnchorError
from terms import last, short, src
from rules.c12 import one, where

EXPLANATION = ("Path enumeration of the function that builds the translation pipeline: on every path the list of stages is read off, and for each "
               "stage the rules it is compiled from, by evaluating the predicates that select them for every opcode. The functions that run the "
               "pipeline are unfolded over two consecutive stages down to the trace of each table; each stage must run on the joined output of the one before.")
LEVEL = "other"
ASSUMPTIONS = ["a stage may be left out only where the code tests that it has no rules", "two consecutive stages stand for any number: the loop state is the text handed on"]

ORDER = [("Pre", "Correct"), ("Main", None), ("Post1", "Pass2"), ("Post2", "Pass3"), ("Post3", "Pass4")]
KEEP_DIRECTION = "is_direction"


def one_fn(P, suffix):
    return one(P, suffix)


def rule_set(P, t, rules, variants):
    """opcodes a rule list admits: {variant: 'yes'|'no'|'dir'|'part'|'?'}, base"""
    base, ops = seq.stages(t)
    out = {v: "yes" for v in variants}
    for op, args in ops:
        if op != "filter" or len(args) != 1:
            raise seq.Unknown("rules selected with " + op)
        pr = seq.predicate(P, args[0], lambda e: ("fld", e, None, "rule"), variants)
        for v, answers in pr.items():
            vals = {a if not isinstance(a, tuple) else ("dir" if a[0] == "call" and last(a[1]) == KEEP_DIRECTION else "?") for _, a in answers}
            if len(vals) > 1:
                # a branch on the direction test itself
                ext = [c for c, _ in answers]
                if vals <= {0, 1, "dir"} and all(all(last(k[1]) == KEEP_DIRECTION for k, _ in c if k[0] == "call") and all(k[0] == "call" for k, _ in c) for c in ext):
                    vals = {"dir"}
            new = {0: "no", 1: "yes", "dir": "dir", "?": "?"}[next(iter(vals))] if len(vals) == 1 else ("?" if "?" in vals else "part")
            if out[v] == "no" or new == "yes":
                continue
            out[v] = new if out[v] == "yes" or new in ("no", "?", "part") else out[v]
    return out, base


def compiled(rep, P):
    und = 0
    f = one(P, "::TranslationPipeline::compile")
    adt = [a for a in P.adts if a.endswith("parser::Rule")][0]
    variants = [v["name"] for v in P.adts[adt]["variants"]]
    W = where(f)
    seen = set()
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            und += 1
            continue
        if p.ret[0] != "agg" or p.ret[2] != "Ok":
            continue
        ev = seq.events(p)
        try:
            its = seq.items(p.ret[4][0][4][0], ev)
        except (seq.Unknown, IndexError):
            und += 1
            continue
        if any(k != "one" for k, _ in its):
            und += 1
            continue
        d = p.conds.get(("discr", ("arg", 2)))
        dirs = [d[1]] if d and d[0] == "=" else ["Forward", "Backward"]
        got, bad = [], False
        for _, it in its:
            if it[0] != "agg" or it[2] not in ("Pre", "Primary", "Post"):
                bad = True
                break
            call = src(it[4][0])
            if call[0] != "call" or last(call[1]) != "compile" or len(call[2]) != 4:
                bad = True
                break
            rules, direction, stage, ctx = call[2]
            stage = stage[2] if stage[0] == "agg" else "?"
            kind = "Primary" if "PrimaryTable" in call[1] else "Multipass"
            try:
                adm, base = rule_set(P, rules, ("arg", 1), variants)
                cbase = None
                c = src(ctx)
                if c[0] == "call" and last(c[1]) == "compile" and "TableContext" in c[1]:
                    cadm, cbase = rule_set(P, c[2][0], ("arg", 1), variants)
            except seq.Unknown:
                bad = True
                break
            rep.check("stage", "variant of the %s stage" % stage, it[2] == {"Pre": "Pre", "Main": "Primary"}.get(stage, "Post") or stage == "?", W,
                      "the stage %s is run as %s" % (stage, it[2]))
            rep.check("stage", "table of the %s stage" % stage, (kind == "Primary") == (stage == "Main") or stage == "?", W, "the stage %s is compiled as %s table" % (stage, kind))
            if direction != ("arg", 2) and not (direction[0] == "agg" and [direction[2]] == dirs):
                if direction[0] == "agg" or direction[0] == "const":
                    rep.bad("stage", "direction of the %s stage" % stage, W, "the stage %s is compiled for a fixed direction" % stage)
                else:
                    und += 1
            if base != ("arg", 1):
                bad = True
                break
            if cbase is not None:
                if cbase != ("arg", 1):
                    und += 1
                else:
                    # the character definitions and classes of the whole table are known to every stage
                    miss = sorted(v for v, a in cadm.items() if a in ("no", "part"))
                    rep.check("context", "definitions known to the %s stage" % stage, not miss, W,
                              "the stage %s is compiled without the table's rules %s" % (stage, miss[:5]))
            op = dict(ORDER).get(stage)
            if stage == "Main":
                miss = sorted(v for v, a in adm.items() if a in ("no", "part") and v not in ("Correct", "Pass2", "Pass3", "Pass4", "Display", "Include"))
                rep.check("rules", "rules of the Main stage", not miss, W, "the main stage is compiled without the rules %s" % miss[:6])
            elif op:
                a = adm[op]
                if a == "?":
                    und += 1
                else:
                    rep.check("rules", "all %s rules in the stage %s" % (op, stage), a in ("yes", "dir"), W,
                              "the stage %s is compiled %s" % (stage, "without the %s rules" % op if a == "no" else "with only some of the %s rules" % op))
                for v in ("Correct", "Pass2", "Pass3", "Pass4"):
                    if v != op and adm[v] != "?":
                        rep.check("rules", "no %s rules in the stage %s" % (v, stage), adm[v] == "no", W, "the stage %s also runs the %s rules" % (stage, v))
            got.append(stage)
        if bad or "?" in got:
            und += 1
            continue
        # left out only when empty
        tested, vague = {}, set()
        for c, v in p.conds.items():
            e = None
            if c[0] == "call" and last(c[1]) == "is_empty" and v[0] == "=":
                e, t = v[1] == 1, c[2][0]
            elif c[0] == "bin" and c[1] in ("Eq", "Ne", "Gt") and c[2][0] == "call" and last(c[2][1]) == "len" and c[3] == ("const", 0) and v[0] == "=":
                e, t = (v[1] == 1) == (c[1] == "Eq"), c[2][2][0]
            elif c[0] == "call" and last(c[1]) == "any" and v[0] == "=" and len(c[2]) == 2:
                e, t = v[1] == 0, ("call", "filter", c[2], 0)
            if e is None:
                continue
            try:
                adm, base = rule_set(P, t, ("arg", 1), variants)
            except seq.Unknown:
                continue
            for st, op in ORDER:
                if op and adm[op] in ("yes", "dir"):
                    tested[st] = e
                elif op and adm[op] == "?":
                    vague.add(st)
        for st, op in ORDER:
            n = got.count(st)
            if n > 1:
                rep.bad("stages", "stage %s once" % st, W, "the stage %s is run %d times" % (st, n))
            elif n == 0 and st not in tested and st in vague:
                und += 1
            elif n == 0:
                rep.check("stages", "stage %s present" % st, tested.get(st) is True, W,
                          "the stage %s is left out %s" % (st, "although it has rules" if st in tested else "on a path that does not test whether it has rules"))
            else:
                rep.ok("stages", "stage %s once" % st)
        want = [s for s, _ in ORDER if s in got]
        for dn in dirs:
            w = want if dn == "Forward" else want[::-1]
            rep.check("order", "order of the stages %s" % dn.lower(), got == w or len(set(got)) != len(got), W,
                      "the stages run in the order %s in %s translation" % (got, dn.lower()))
        seen.add((tuple(got), tuple(dirs)))
    rep.count("stage combinations", len(seen))
    rep.floor("pipeline shapes", len(seen), 2)
    return und


def joined(P, t):
    """T when t is the text made of the output of every element of T in order"""
    base, ops = seq.stages(t)
    ops = [o for o in ops]
    if not ops:
        return None
    if ops[-1][0] in ("map", "flat_map") and len(ops) == 1:
        fn = ops[0][1][0]
        if fn[0] == "fn":
            return base if last(fn[1]) == "output" else None
        if fn[0] != "closure":
            return None
        rets = {p.ret for p in flow.Flow(P).paths(P.fns[fn[1]])}
        if len(rets) == 1:
            r, o = seq.stages(next(iter(rets)))
            if not o and (r[0] == "call" and last(r[1]) == "output" and r[2] == (("arg", 2),)):
                return base
            if not o and r == ("fld", ("arg", 2), None, "output"):
                return base
    if len(ops) >= 1 and ops[0][0] in ("rev", "skip", "take", "filter", "step_by", "skip_while", "take_while", "dedup"):
        raise Mismatch("%s is applied to the pieces of a stage" % ops[0][0])
    return None


class Mismatch(Exception):
    pass


def default_options(t):
    return t[0] == "default" or t[0] == "call" and last(t[1]) == "default"


def run_stages(rep, P):
    """every way of running the pipeline feeds each stage with the output of the one before"""
    und = 0
    fl = lambda: flow.Flow(P, inline_pred=lambda f: "::pipeline::" in f.path or f.path.endswith(("Table::translate", "Table::translate_with_options")), loop_bound=2)
    for name, kind, opts in (("translate", "text", False), ("translate_with_options", "text", True), ("trace", "list", False), ("trace_with_options", "list", True)):
        f = one(P, "::TranslationPipeline::" + name)
        W = where(f)
        lens = set()
        for p in fl().paths(f):
            if p.div or p.trunc:
                continue
            ev = seq.events(p)
            # elements taken from the stage list
            taken, done, order_ok = [], False, True
            for c, v in p.conds.items():
                if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next":
                    try:
                        base, n = seq.loop_base(c[1])
                    except seq.Unknown:
                        order_ok = None
                        continue
                    b, ops = seq.stages(base)
                    if b != ("fld", ("arg", 1), None, "steps"):
                        continue
                    if ops:
                        rep.bad("feed", "%s runs over all stages" % name, W, "the stages are run through %s" % [o[0] for o in ops])
                        order_ok = None
                        continue
                    if v == ("=", "+"):
                        taken.append(("fld", c[1], "Some", "0"))
                    elif v == ("=", "-"):
                        done = True
            if order_ok is None:
                und += 1
                continue
            if not taken and not done:
                und += 1
                continue
            if not done:
                rep.bad("feed", "%s runs all stages" % name, W, "%s can end before the last stage" % name)
                continue
            # the calls that run each stage
            runs = []
            bad = False
            for i, el in enumerate(taken):
                v = p.conds.get(("discr", el))
                cand = [e for e in p.events if last(e[0]) == "trace" and e[1] and any(x == el for x in flow.walk(e[1][0]))]
                if not cand:
                    rep.bad("feed", "%s runs every stage" % name, W, "%s skips the stage %s" % (name, v[1] if v else i + 1))
                    bad = True
                    break
                runs.append((v[1] if v else "?", cand))
            if bad:
                continue
            lens.add(len(taken))
            text = ("arg", 2)
            lists = []
            for i, (v, cand) in enumerate(runs):
                ok = None
                for e in cand:
                    inp = seq.stages(e[1][1])
                    try:
                        j = joined(P, e[1][1])
                    except Mismatch as m:
                        rep.bad("feed", "%s hands on the whole text" % name, W, str(m))
                        continue
                    got = j if j is not None else (inp[0] if not inp[1] else None)
                    if got is None:
                        und += 1
                        continue
                    g = got if got[0] != "call" else got[:3]
                    w = text if text[0] != "call" else text[:3]
                    good = (g == w) and (j is not None) == (i > 0)
                    if not good and (g != ("arg", 2) and not (g[0] == "call" and last(g[1]) == "trace")):
                        und += 1
                        continue
                    rep.check("feed", "%s: input of stage %d (%s)" % (name, i + 1, v), good, W,
                              "%s runs %s stage %s on %s" % (name, "the first" if i == 0 else "a later", v, "the original text" if g == ("arg", 2) else short(got)[:80]))
                    if v == "Primary":
                        o = e[1][2] if len(e[1]) > 2 else None
                        if o is not None:
                            good = o == ("arg", 3) if opts else default_options(o)
                            if not good and o[0] not in ("arg", "default") and not default_options(o):
                                und += 1
                            else:
                                rep.check("options", "%s: options of the main stage" % name, good, W,
                                          "%s runs the main stage with %s" % (name, "the default options" if default_options(o) else short(o)[:60]))
                    ok = e
                if ok is None:
                    break
                text = ("call", ok[0], ok[1], ok[2])
                lists.append(text)
            if len(lists) != len(runs):
                und += 1
                continue
            # what is returned
            if kind == "text":
                try:
                    j = joined(P, p.ret) if lists else None
                except Mismatch as m:
                    rep.bad("result", "%s returns the whole text" % name, W, str(m))
                    continue
                if lists and j is None:
                    b, o = seq.stages(p.ret)
                    if b == ("arg", 2) and not o:
                        rep.bad("result", "%s returns the last text" % name, W, "%s returns its input" % name)
                    else:
                        und += 1
                    continue
                if lists:
                    rep.check("result", "%s returns the last text" % name, j[:3] == lists[-1][:3], W, "%s returns the output of another stage" % name)
                else:
                    b, o = seq.stages(p.ret)
                    rep.check("result", "%s without stages" % name, b == ("arg", 2) and not o, W, "%s without stages does not return its input" % name)
            else:
                try:
                    its = seq.items(p.ret, ev)
                except seq.Unknown:
                    und += 1
                    continue
                got = [seq.stages(x)[0][:3] for _, x in its]
                rep.check("result", "%s lists the stages" % name, got == [l[:3] for l in lists], W, "%s returns %d stages, or not in the order they ran" % (name, len(got)))
        rep.check("feed", "%s runs any number of stages" % name, lens >= {1, 2} or not lens, W, "%s never runs two stages in a row" % name)
        if not lens:
            und += 1
    return und


def library(rep, P):
    """the library's translator is that pipeline over the rules of all its tables"""
    und = 0
    f = one(P, "crate::Translator::new")
    W = where(f)
    pl = one(P, "::TranslationPipeline::compile").path
    n = 0
    for p in flow.Flow(P, opaque=(pl,), loop_bound=2).paths(f):
        if p.div or p.trunc:
            continue
        ev = seq.events(p)
        if p.ret[0] != "agg" or p.ret[2] != "Ok":
            continue
        cs = [e for e in p.events if e[0] == pl]
        if len(cs) != 1:
            und += 1
            continue
        rep.check("library", "new: direction", cs[0][1][1] == ("arg", 2), W, "the translator is compiled for %s" % short(cs[0][1][1]))
        taken = []
        exhausted = False
        for c, v in p.conds.items():
            if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next":
                try:
                    base, k = seq.loop_base(c[1])
                except seq.Unknown:
                    und += 1
                    continue
                b, ops = seq.stages(base)
                if b == ("arg", 1):
                    rep.check("library", "new: tables in order", not ops, W, "the tables are taken through %s" % [o[0] for o in ops])
                    if v == ("=", "+"):
                        taken.append(("fld", c[1], "Some", "0"))
                    else:
                        exhausted = True
        try:
            its = seq.items(cs[0][1][0], ev)
        except seq.Unknown:
            und += 1
            continue
        got = []
        for k, x in its:
            b, ops = seq.stages(x)
            c = src(b)
            if ops:
                rep.bad("library", "new: all rules of a table", W, "the rules of a table are passed through %s" % [o[0] for o in ops])
                continue
            if c[0] != "call" or last(c[1]) != "table_expanded":
                und += 1
                got = None
                break
            a = seq.stages(c[2][0])[0]
            got.append(a)
        if got is None:
            continue
        rep.check("library", "new: every table", exhausted and len(got) == len(taken) and all(g == t for g, t in zip(got, taken)), W,
                  "of %d tables %d are compiled%s" % (len(taken), len(got), "" if exhausted else ", and the rest are not read"))
        n += 1
    rep.floor("ways to compile a list of tables", n, 1)
    # translate and translate_with_options
    run = [f.path for f in P.fns.values() if "::TranslationPipeline::" in f.path]
    for name, opts in (("translate", None), ("translate_with_options", ("arg", 3))):
        f = one(P, "crate::Translator::" + name)
        W = where(f)
        for p in flow.Flow(P, opaque=tuple(run), inline_pred=lambda g: g.path.startswith("crate::Translator::")).paths(f):
            if p.trunc or p.div:
                continue
            if p.ret[0] == "agg" and p.ret[2] == "Err":
                und += 1
                continue
            calls = [e for e in p.events if e[0] in run]
            if len(calls) != 1 or last(calls[0][0]) not in ("translate", "translate_with_options"):
                und += 1
                continue
            a = calls[0][1]
            rep.check("library", "%s: the text" % name, seq.stages(a[1]) == (("arg", 2), []), W, "the text translated is %s" % short(a[1]))
            if opts:
                good = len(a) > 2 and seq.stages(a[2])[0] == opts
                rep.check("library", "%s: the options" % name, good, W, "the options given are not those used")
            else:
                rep.check("library", "%s: the options" % name, len(a) == 2 or default_options(seq.stages(a[2])[0]), W, "translation without options does not use the default options")
            r = p.ret
            while r[0] == "map" and r[1][0] == "agg" and r[1][2] == "Ok" and r[2][0] == "closure":
                inner = {q.ret for q in flow.Flow(P).paths(P.fns[r[2][1]], [("arg", 1), r[1][4][0]])}
                r = ("agg", r[1][1], "Ok", ("0",), (next(iter(inner)),)) if len(inner) == 1 else ("?",)
            t = ("call", calls[0][0], calls[0][1], calls[0][2])
            if r[0] == "agg" and r[2] == "Ok":
                x = r[4][0]
                if x[0] == "agg" and "output" in x[3]:
                    x = x[4][x[3].index("output")]
                elif x[0] == "upd":
                    und += 1
                    continue
                b, o = seq.stages(x)
                rep.check("library", "%s: the result" % name, b[:3] == t[:3] and not o, W, "%s returns %s instead of the translated text" % (name, short(x)[:80]))
            else:
                und += 1
    return und


def display(rep, P):
    und = 0
    f = one(P, "::DisplayTable::compile")
    W = where(f)
    adt = [a for a in P.adts if a.endswith("parser::Rule")][0]
    variants = [v["name"] for v in P.adts[adt]["variants"]]
    n = 0
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        el = None
        for c, v in p.conds.items():
            if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next" and v == ("=", "+"):
                base, k = seq.loop_base(c[1])
                try:
                    adm, b = rule_set(P, base, ("arg", 1), variants)
                except seq.Unknown:
                    und += 1
                    break
                if b == ("arg", 1):
                    rep.check("display", "all display rules", adm["Display"] in ("yes", "dir", "?"), W, "the display table is compiled without its display rules")
                    el = ("fld", c[1], "Some", "0")
        if el is None:
            continue
        rule = ("fld", el, None, "rule")
        v = p.conds.get(("discr", rule))
        d = p.conds.get(("discr", ("arg", 2)))
        ins = []
        for e in p.events:
            if last(e[0]) == "insert" and len(e[1]) == 3:
                ins.append((e[1][1], e[1][2]))
            elif last(e[0]) == "or_insert" and e[1][0][0] == "call" and last(e[1][0][1]) == "entry":
                ins.append((e[1][0][2][1], e[1][1]))
        if v is None:
            und += 1
            continue
        if v != ("=", "Display"):
            rep.check("display", "only display rules", not ins, W, "another rule than display is put into the display table")
            continue
        rest = [c for c, x in p.conds.items() if c not in (("discr", rule), ("discr", ("arg", 2))) and not (c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next")
                and not (c[0] == "call" and last(c[1]) in ("is_direction", "contains_key"))]
        if not ins:
            if not any(c[0] == "call" and last(c[1]) in ("is_direction", "contains_key") for c in p.conds) and not rest:
                rep.bad("display", "every display rule is entered", W, "a display rule is left out")
            else:
                und += 1
            continue
        if not d or len(ins) != 1:
            und += 1
            continue
        def side(t):
            t = seq.stages(t)[0]
            if t[0] == "call" and last(t[1]) == "to_unicode":
                t = seq.stages(t[2][0])[0]
                return "braille" if t == ("fld", rule, "Display", "dots") else "?"
            return "char" if t == ("fld", rule, "Display", "character") else "?"
        got = tuple(side(x) for x in ins[0])
        if "?" in got:
            und += 1
            continue
        want = ("braille", "char") if d == ("=", "Forward") else ("char", "braille")
        n += 1
        rep.check("display", "display rule %s" % (d[1],), got == want, W, "in direction %s a display rule maps %s to %s" % (d[1], got[0], got[1]))
    rep.floor("display mappings", n, 2)
    f = one(P, "::DisplayTable::translate")
    W = where(f)
    ps = [p for p in flow.Flow(P).paths(f) if not p.trunc and not p.div]
    for p in ps:
        base, ops = seq.stages(p.ret)
        if [o[0] for o in ops] != ["chars", "map"] or base != ("arg", 2):
            bad = [o[0] for o in ops if o[0] in ("rev", "skip", "take", "filter", "filter_map", "step_by", "dedup", "skip_while", "take_while")]
            if base == ("arg", 2) and bad:
                rep.bad("display", "every character is mapped", W, "characters of the text are dropped or reordered by %s" % bad[0])
            else:
                und += 1
            continue
        fn = ops[1][1][0]
        if fn[0] != "closure":
            und += 1
            continue
        for q in flow.Flow(P).paths(P.fns[fn[1]]):
            t = q.ret
            und += look(rep, t, q, W)
    return und


def look(rep, t, q, W):
    """a character without mapping stays"""
    g = lambda x: x[0] == "call" and last(x[1]) == "get" and len(x[2]) == 2 and x[2][1] == ("arg", 2)
    if t[0] in ("ordefault", "orelse") and len(t) > 2 and g(t[1]):
        rep.check("display", "an unmapped character stays", t[2] == ("arg", 2), W, "an unmapped character becomes %s" % short(t[2]))
        return 0
    if t[0] == "call" and last(t[1]) == "unwrap_or" and g(t[2][0]):
        rep.check("display", "an unmapped character stays", t[2][1] == ("arg", 2), W, "an unmapped character becomes %s" % short(t[2][1]))
        return 0
    c = [(k, v) for k, v in q.conds.items() if k[0] == "discr" and g(k[1])]
    if len(c) == 1:
        if c[0][1] == ("=", "+"):
            rep.check("display", "a mapped character is replaced", t[0] == "fld" and g(t[1]), W, "a mapped character becomes %s" % short(t))
        else:
            rep.check("display", "an unmapped character stays", t == ("arg", 2), W, "an unmapped character becomes %s" % short(t))
        return 0
    return 1


def run(rep, L, B):
    rep.parts([compiled, run_stages, library, display], L)
    return 0
