"""C07: every opcode keyword, its rule, its operands and its printed form agree."""
import flow
from prog import AnchorError
from terms import last, src, callee, short, calls_in

EXPLANATION = ("Path-splitting provenance dataflow over the rule parser. For every path from an opcode keyword to a rule the analysis "
               "establishes which rule is built and from which token each of its fields comes, in which order tokens are consumed, and "
               "compares that with the documented operand list of the opcode; the printed form of every rule is read out of its "
               "format template and must list the keyword and the same operands in the same order.")
LEVEL = "other"
ASSUMPTIONS = ["an operand whose origin the dataflow cannot name counts as undecided, not as wrong",
               "the operand table in this file follows the liblouis table documentation"]
# opcode keyword: field:reader in the order of the operands in a table line
SPEC = {
    "always": "chars:chars dots:dots",
    "attribute": "name:name chars:chars",
    "base": "name:name derived:one_char base:one_char",
    "begcaps": "dots:explicit_dots",
    "begcapsphrase": "dots:explicit_dots",
    "begcapsword": "dots:explicit_dots",
    "begcomp": "dots:explicit_dots",
    "begemph": "name:name dots:explicit_dots",
    "begemphphrase": "name:name dots:explicit_dots",
    "begemphword": "name:name dots:explicit_dots",
    "begmidword": "chars:chars dots:dots",
    "begmodephrase": "name:name dots:explicit_dots",
    "begmodeword": "name:name dots:explicit_dots",
    "begnum": "chars:chars dots:explicit_dots",
    "begword": "chars:chars dots:dots",
    "capsletter": "dots:explicit_dots",
    "capsmodechars": "chars:chars",
    "capsnocont": "",
    "class": "name:name chars:chars",
    "comp6": "chars:chars dots:dots",
    "compbrl": "chars:chars",
    "context": "test:multipass_test action:multipass_action",
    "contraction": "chars:chars",
    "correct": "test:multipass_test action:multipass_action",
    "decpoint": "character:one_char dots:explicit_dots",
    "digit": "character:one_char dots:explicit_dots",
    "display": "character:one_char dots:single_braillechar",
    "emphclass": "name:name",
    "emphletter": "name:name dots:explicit_dots",
    "emphmodechars": "name:name chars:chars",
    "endcaps": "dots:explicit_dots",
    "endcapsphrase": "position:position dots:explicit_dots",
    "endcapsword": "dots:explicit_dots",
    "endcomp": "dots:explicit_dots",
    "endemph": "name:name dots:explicit_dots",
    "endemphphrase": "name:name position:position dots:explicit_dots",
    "endemphword": "name:name dots:explicit_dots",
    "endmodephrase": "name:name position:position dots:explicit_dots",
    "endnum": "chars:chars dots:dots",
    "endword": "chars:chars dots:dots",
    "exactdots": "chars:chars",
    "grouping": "name:name chars:chars left:many_braillechar right:many_braillechar",
    "hyphen": "character:one_char dots:explicit_dots",
    "include": "file:filename",
    "joinnum": "chars:chars dots:explicit_dots",
    "joinword": "chars:chars dots:explicit_dots",
    "largesign": "chars:chars dots:explicit_dots",
    "lencapsphrase": "number:number",
    "lenemphphrase": "name:name number:number",
    "lenmodephrase": "name:name number:number",
    "letsign": "dots:explicit_dots",
    "letter": "character:one_char dots:explicit_dots",
    "litdigit": "character:one_char dots:explicit_dots",
    "literal": "chars:chars",
    "lowercase": "character:one_char dots:explicit_dots",
    "lowword": "chars:chars dots:explicit_dots",
    "match": "pre:match_pre chars:chars post:match_post dots:dots",
    "math": "character:one_char dots:explicit_dots",
    "midendnumericmodechars": "chars:chars",
    "midendword": "chars:chars dots:dots",
    "midnum": "chars:chars dots:explicit_dots",
    "midword": "chars:chars dots:dots",
    "modeletter": "name:name dots:explicit_dots",
    "multind": "dots:explicit_dots names:many_names",
    "nocont": "chars:chars",
    "nocontractsign": "dots:explicit_dots",
    "noemphchars": "name:name chars:chars",
    "noletsign": "chars:chars",
    "noletsignafter": "chars:chars",
    "noletsignbefore": "chars:chars",
    "nonumsign": "dots:explicit_dots",
    "numericmodechars": "chars:chars",
    "numericnocontchars": "chars:chars",
    "numsign": "dots:explicit_dots",
    "partword": "chars:chars dots:dots",
    "pass2": "test:multipass_test action:multipass_action",
    "pass3": "test:multipass_test action:multipass_action",
    "pass4": "test:multipass_test action:multipass_action",
    "postpunc": "chars:chars dots:explicit_dots",
    "prepunc": "chars:chars dots:explicit_dots",
    "prfword": "chars:chars dots:dots",
    "punctuation": "character:one_char dots:explicit_dots",
    "repeated": "chars:chars dots:explicit_dots",
    "rependword": "chars:chars dots:many_braillechars other:many_braillechars",
    "replace": "chars:chars replacement:maybe_chars",
    "repword": "chars:chars dots:explicit_dots",
    "seqafterchars": "chars:chars",
    "seqafterexpression": "chars:chars",
    "seqafterpattern": "chars:chars",
    "seqbeforechars": "chars:chars",
    "seqdelimiter": "chars:chars",
    "sign": "character:one_char dots:explicit_dots",
    "space": "character:one_char dots:explicit_dots",
    "sufword": "chars:chars dots:dots",
    "swapcc": "name:name chars:chars replacement:chars",
    "swapcd": "name:name chars:chars dots:many_braillechars",
    "swapdd": "name:name dots:many_braillechar replacement:many_braillechars",
    "syllable": "chars:chars dots:dots",
    "undefined": "dots:explicit_dots",
    "uppercase": "character:one_char dots:explicit_dots",
    "word": "chars:chars dots:dots",
}
READERS = {r.split(":")[1] for v in SPEC.values() for r in v.split()} | {"constraints", "with_classes", "with_matches"}
# rules whose printed form leaves operands out on purpose (the tracer shows the rule without them)
RULE = "crate::parser::Rule"


def method(P, ty, name):
    r = [f for p, f in P.fns.items() if p.split("::")[-1] == name and ty in p and f.kind != "closure"]
    if len(r) != 1:
        raise AnchorError("%s::%s (%d candidates)" % (ty, name, len(r)))
    return r[0]


def impl(P, frag, name):
    r = [f for p, f in P.fns.items() if frag in p and p.endswith(">::" + name)]
    if len(r) != 1:
        raise AnchorError("%s %s (%d candidates)" % (frag, name, len(r)))
    return r[0]


def reader(t):
    """(reader name, order) of the token an operand comes from"""
    found = {(last(c[1]), c[3]) for c in calls_in(t) if "RuleParser" in c[1] and last(c[1]) in READERS}
    found = {f for f in found if f[0] not in ("constraints", "with_classes", "with_matches")} or found
    return next(iter(found)) if len(found) == 1 else None


def run(rep, L, B):
    und = 0
    und += keywords(rep, L)
    und += rules(rep, L)
    und += printed(rep, L)
    und += tokens(rep, L)
    und += escapes(rep, L)
    rep.count("undecided operands", und)


def keywords(rep, P):
    f = method(P, "RuleParser", "opcode")
    fl = flow.Flow(P)
    variants = [v["name"] for a, d in P.adts.items() if a.endswith("::Opcode") for v in d["variants"]]
    got = {}
    und = 0
    for p in fl.paths(f):
        if p.div or p.trunc:
            continue
        kws = [c[3][1] if c[3][0] == "str" else c[2][1] for c, v in p.conds.items()
               if c[0] == "bin" and c[1] == "Eq" and v == ("=", 1) and "str" in (c[2][0], c[3][0])]
        if len(kws) == 1 and p.ret[0] == "agg":
            k = kws[0]
            if p.ret[2] == "Ok" and p.ret[4][0][0] == "agg":
                got[k] = p.ret[4][0][2]
            else:
                got[k] = None
        elif not kws and p.ret[0] == "agg":
            rep.check("keyword", "a line with no known keyword", p.ret[2] == "Err", "%s:%d" % (f.file, f.line), "a line without a known opcode is accepted as %s" % short(p.ret))
        elif not kws:
            und += 1
    if not got:
        rep.count("keywords", 0)
        return und + len(SPEC)
    for k in sorted(set(SPEC) | set(got)):
        want = k.capitalize()
        if k not in got:
            rep.bad("keyword", k, "%s:%d" % (f.file, f.line), "the opcode %s is no longer recognised" % k)
        elif k in SPEC:
            rep.check("keyword", k, got[k] == want, "%s:%d" % (f.file, f.line), "the keyword %r is read as opcode %s" % (k, got[k]))
    rep.count("keywords", len(got))
    return und


def rules(rep, P):
    f = method(P, "RuleParser", "rule")
    loc = "%s:%d" % (f.file, f.line)
    fl = flow.Flow(P)
    und, n, seen, prefixes = 0, 0, set(), 0
    for p in fl.paths(f):
        if p.div or p.trunc:
            continue
        ops = [v[1] for c, v in p.conds.items() if c[0] == "discr" and v[0] == "=" and (callee(c[1]) or "").endswith("::opcode") and v[1] not in ("+", "-")]
        r = p.ret
        if r[0] != "agg" or r[2] != "Ok" or r[4][0][0] != "agg":
            continue
        r = r[4][0]
        if len(ops) != 1:
            und += 1
            continue
        op = ops[0]
        k = op.lower()
        if k not in SPEC:
            continue
        seen.add(op)
        n += 1
        if not rep.check("rule", "%s builds its own rule" % k, r[2] == op, loc, "the opcode %s builds the rule %s" % (k, r[2])):
            continue
        want = [x.split(":") for x in SPEC[k].split()]
        for name in ("constraints", "with_classes", "with_matches"):
            if name in r[3]:
                t = r[4][r[3].index(name)]
                read = {last(c[1]) for c in calls_in(t) if "RuleParser" in c[1]}
                if name in read:
                    prefixes += 1
                elif not read and not any(x[0] == "arg" for x in flow.walk(t)):
                    rep.bad("operand", "%s.%s is what the line says" % (k, name), loc, "what a line says before %s about its %s is dropped: the rule has %s" % (k, name.replace("with_", ""), short(t)[:60]))
                else:
                    und += 1
        order = []
        for name, rd in want:
            if name not in r[3]:
                und += 1
                continue
            g = reader(r[4][r[3].index(name)])
            if g is None:
                und += 1
                continue
            rep.check("operand", "%s.%s is read as %s" % (k, name, rd), g[0] == rd, loc,
                      "the operand %s of %s is read as %s instead of %s" % (name, k, g[0], rd))
            order.append((name, g[1]))
        rep.check("order", "%s operands %s" % (k, [o[0] for o in order]), all(a[1] <= b[1] for a, b in zip(order, order[1:])), loc,
                  "the operands of %s are taken from the table line in the order %s" % (k, [o[0] for o in sorted(order, key=lambda o: o[1])]))
        distinct = {o[1] for o in order}
        shared = {"grouping": 1, "rependword": 1}.get(k, 0)
        rep.check("order", "%s operands are separate tokens" % k, len(distinct) == len(order) - shared or len(order) < len(want), loc,
                  "two operands of %s come from one token" % k)
        if k.startswith("swap"):
            e = [x for x in p.events if last(x[0]) == "fail_if_differing_number_of_replacements"]
            eqs = [c for c, v in p.conds.items() if c[0] == "bin" and c[1] == "Eq"]
            rep.check("swap", "%s needs as many replacements as characters" % k, bool(e) or bool(eqs), loc,
                      "%s accepts a different number of replacements" % k)
    rep.floor("opcodes whose rule construction was resolved", len(seen), 100)
    rep.count("constraints and classes that come from the line", prefixes)
    for g in [f for f in P.fns.values() if f.path.endswith("::fail_if_differing_number_of_replacements")]:
        for p in flow.Flow(P).paths(g):
            for c, v in p.conds.items():
                if c[0] == "bin" and c[1] == "Eq" and {c[2], c[3]} == {("arg", 1), ("arg", 2)} and p.ret[0] == "agg":
                    rep.check("swap", "differing counts are an error" if v == ("=", 0) else "equal counts are accepted",
                              (p.ret[2] == "Ok") == (v == ("=", 1)), "%s:%d" % (g.file, g.line), "replacement counts are compared the wrong way round")
    return und


def printed(rep, P):
    f = impl(P, "parser::Rule as std::fmt::Display", "fmt")
    loc = "%s:%d" % (f.file, f.line)
    und, n = 0, 0
    for p in flow.Flow(P).paths(f):
        if p.trunc:
            continue
        vs = [v[1] for c, v in p.conds.items() if c == ("discr", ("arg", 1)) and v[0] == "="]
        if len(vs) != 1:
            if p.div and not vs:
                rep.bad("print", "default arm", loc, "printing some rules aborts the program")
            continue
        k = vs[0].lower()
        if k not in SPEC:
            continue
        if p.div:
            rep.bad("print", k, loc, "printing a %s rule aborts the program" % k)
            continue
        text, args = [], []
        for e in p.events:
            for a in e[1]:
                if a[0] == "fmt":
                    for x in a[1]:
                        if isinstance(x, int):
                            if x < len(a[2]):
                                args.append(a[2][x])
                            text.append(None)
                        else:
                            text.append(x)
            if last(e[0]) == "write_str" and len(e[1]) > 1 and e[1][1][0] == "str":
                text.append(e[1][1][1])
        head = next((x for x in text if x is not None and x.strip()), None)
        if head is None:
            und += 1
            continue
        n += 1
        rep.check("print", "%s keyword" % k, head.split()[0] == k, loc, "a %s rule is printed as %r" % (k, head.split()[0]))
        names = []
        for a in args:
            fs = [x[3] for x in flow.walk(a) if x[0] == "fld" and x[1] == ("arg", 1) and x[2] == vs[0]]
            if fs:
                names.append(fs[0])
            else:
                names.append(None)
        if None in names:
            und += 1
            names = [x for x in names if x]
        want = [x.split(":")[0] for x in SPEC[k].split()]
        names = [x for x in names if x in want]
        rep.check("print", "%s operands" % k, names == [w for w in want if w in names], loc,
                  "the operands of %s are printed in the order %s, tables have %s" % (k, names, want))
    rep.floor("printed rule forms resolved", n, 90)
    return und


def on_tokens(t):
    """is it the parser's own tokens, and not something made from one of them?"""
    named = False
    while t[0] in ("fld", "mut") or t[0] == "call" and last(t[1]) in ("by_ref", "borrow_mut", "as_mut", "into_iter"):
        named = named or t[0] == "fld" and t[3] == "tokens"
        t = t[1] if t[0] == "fld" else t[3] if t[0] == "mut" else t[2][0]
    return named and t == ("arg", 1)


def tokens(rep, P):
    """readers: how many tokens they take and what keywords mean"""
    und, n = 0, 0
    one = ["name", "one_char", "number", "chars", "maybe_chars", "filename", "dots", "explicit_dots", "many_braillechars", "single_braillechar",
           "many_braillechar", "multipass_test", "multipass_action", "match_pre", "match_post"]
    sides = {"match_pre": "Pre", "match_post": "Post"}
    ctxs = {"chars": "Default", "one_char": "Default", "match_pre": "MatchPattern", "match_post": "MatchPattern"}
    for r in one:
        c = [f for p, f in P.fns.items() if "RuleParser" in p and p.endswith("::" + r)]
        if len(c) != 1:
            und += 1
            continue
        f = c[0]
        loc = "%s:%d" % (f.file, f.line)
        for p in flow.Flow(P).paths(f):
            if p.trunc or p.div:
                continue
            if p.ret[0] == "agg" and p.ret[2] == "Err" and "?" not in short(p.ret):
                pass
            nx = [e for e in p.events if last(e[0]) == "next" and e[1] and on_tokens(e[1][0])]
            ok = not (p.ret[0] == "agg" and p.ret[2] == "Err")
            if ok:
                n += 1
                rep.check("token", "%s takes one token" % r, len(nx) == 1, loc, "%s takes %d tokens from the line" % (r, len(nx)))
        # escapes and pattern sides, here or in the closures it passes on
        bodies = [f] + [g for q, g in P.fns.items() if q.startswith(f.path + "::{closure")]
        for g in bodies:
            for p in flow.Flow(P).paths(g):
                for e in p.events:
                    for a in e[1]:
                        if a[0] == "agg" and a[1].endswith("::EscapingContext") and r in ctxs:
                            rep.check("token", "%s escapes" % r, a[2] == ctxs[r], loc, "%s reads escapes as in %s" % (r, a[2]))
                        if a[0] == "agg" and a[1].endswith("::Side") and r in sides:
                            rep.check("token", "%s side" % r, a[2] == sides[r], loc, "%s parses the pattern as its %s side" % (r, a[2]))
    # keyword tokens
    want = {"before": "Before", "after": "After", "empmatchbefore": "Before", "empmatchafter": "After"}
    for r in ("position", "with_class"):
        for f in [f for p, f in P.fns.items() if "RuleParser" in p and p.endswith("::" + r)]:
            for p in flow.Flow(P).paths(f):
                if p.trunc or p.div:
                    continue
                kw = [k for k in taken(p) if k in want]
                built = [x[2] for x in flow.walk(p.ret) if x[0] == "agg" and x[2] in ("Before", "After")]
                if kw and built:
                    n += 1
                    rep.check("token", "%s %s" % (r, kw[-1]), built[0] == want[kw[-1]], "%s:%d" % (f.file, f.line), "the word %r means %s" % (kw[-1], built[0]))
    for f in [f for p, f in P.fns.items() if "RuleParser" in p and p.endswith("::with_matches")]:
        for p in flow.Flow(P).paths(f):
            kws = taken(p)
            if len(kws) == 1 and kws[0] in want:
                ins = {x[2] for e in p.events if last(e[0]) == "insert" for a in e[1] for x in flow.walk(a) if x[0] == "agg" and x[2] in ("Before", "After")}
                if len(ins) == 1:
                    rep.check("token", "with_matches %s" % kws[0], ins == {want[kws[0]]}, "%s:%d" % (f.file, f.line), "%r means %s" % (kws[0], ins))
    # `=` stands for the dots of the characters themselves
    for f in [f for p, f in P.fns.items() if "RuleParser" in p and p.endswith("::dots")]:
        for p in flow.Flow(P).paths(f):
            for c, v in p.conds.items():
                if c[0] == "bin" and c[1] == "Eq" and ("str", "=") in c[2:]:
                    b = [x[2] for x in flow.walk(p.ret) if x[0] == "agg" and x[2] in ("Implicit", "Explicit")]
                    if b:
                        rep.check("token", "dots = (%s)" % (v[1],), (b[0] == "Implicit") == (v == ("=", 1)), "%s:%d" % (f.file, f.line),
                                  "the dots operand '=' is read the wrong way round")
    rep.floor("token readers resolved (paths)", n, 15)
    return und


def taken(p):
    """keyword tokens consumed on the path"""
    out = []
    for c, v in p.conds.items():
        if c[0] == "discr" and v[1] in ("+", "Some"):
            t = src(c[1])
            if t[0] == "call" and last(t[1]) == "next_if_eq" and t[2][-1][0] == "str":
                out.append(t[2][-1][1])
    return out


ESC = {"f": "\f", "n": "\n", "r": "\r", "t": "\t", "s": " ", "v": "\v", "e": "\x1b", "\\": "\\"}
HEXLEN = {"x": 4, "y": 5}


def escapes(rep, P):
    """what a backslash and the character after it stand for"""
    fs = [f for p, f in P.fns.items() if p.endswith("parser::unescape")]
    if len(fs) != 1:
        return 1
    f = fs[0]
    loc = "%s:%d" % (f.file, f.line)
    und, seen = 0, set()
    isnext = lambda t: t[0] == "call" and last(t[1]) == "next"
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        ch = []      # what is known about the first and the second character of the text
        for c, v in p.conds.items():
            if c[0] == "bin" and c[1] == "Eq" and ("char", "\\") in c[2:] and not ch:
                ch.append("\\" if v == ("=", 1) else None)
            elif c[0] == "fld" and isnext(src(c)):
                ch.append(v[1] if v[0] == "=" else ("not", v[1]))
        if len(ch) < 2 or ch[0] != "\\":
            continue
        second = ch[1]
        ns, pushed, hexes = 0, [], []
        for e in p.events:
            n = last(e[0])
            if n == "next":
                ns += 1
                if ns > 2:
                    break
            elif n in ("push", "push_str") and len(e[1]) > 1:
                pushed.append(e[1][1])
            elif n == "unescape_unicode":
                hexes.append(e[1][-1])
        err = p.ret[0] == "agg" and p.ret[2] == "Err"
        if isinstance(second, tuple):
            seen.add("other")
            rep.check("escape", "other characters", err and not pushed and not (set("fnrtsve\\xy") - set(second[1])), loc,
                      "an escape that the table format does not define is accepted, or a defined one is not")
            continue
        seen.add(second)
        if second in ESC and pushed:
            ok = pushed[0] == ("char", ESC[second])
            if pushed[0][0] not in ("char",):
                und += 1
            else:
                rep.check("escape", "\\" + second, ok, loc, "the escape \\%s stands for %r" % (second, pushed[0][1]))
        elif second in ESC:
            rep.check("escape", "\\" + second, False, loc, "the escape \\%s is %s" % (second, "rejected" if err else "dropped"))
        elif second in HEXLEN:
            if hexes and hexes[0][0] == "const":
                rep.check("escape", "\\%s digits" % second, hexes[0][1] == HEXLEN[second], loc,
                          "the escape \\%s takes %s digits instead of %d" % (second, hexes[0][1], HEXLEN[second]))
                if pushed:
                    rep.check("escape", "\\%s value" % second, any(x[0] == "call" and last(x[1]) == "unescape_unicode" for x in flow.walk(pushed[0])), loc,
                              "the character of the escape \\%s is not the one its digits name" % second)
            else:
                und += 1
        elif second in "()]":
            c = [v for k, v in p.conds.items() if k[0] == "bin" and k[1] == "Eq" and any(x[0] == "agg" and x[2] == "MatchPattern" for x in k[2:])]
            if len(c) == 1 and (pushed or ns == 2):
                inpat = c[0] == ("=", 1)
                if inpat:
                    rep.check("escape", "\\%s in patterns" % second, len(pushed) == 2 and pushed[0] == ("char", "\\") and pushed[1][0] != "char" or
                              [x[1] for x in pushed if x[0] == "char"] == ["\\", second], loc, "\\%s does not keep its backslash in a match pattern" % second)
                else:
                    rep.check("escape", "\\%s elsewhere" % second, err and not pushed, loc, "\\%s is accepted outside match patterns" % second)
            else:
                und += 1
        else:
            rep.check("escape", "\\" + second, err, loc, "the escape \\%s is not part of the table format" % second)
    rep.count("escape sequences resolved", len(seen))
    return und
