"""C27: simple rules are found exactly where their characters stand and their conditions hold.

Rule `chain`: inserting a rule lays one path from the root: the classes that must precede, the opcode's boundary before, the
characters of the side that is read, folded, the boundary after, the classes that must follow; the weight counts each of them.
Rule `step`: looking up from a node gives what the node holds, what is found behind the next character (folded), and what is
found behind each condition that holds: conditions before look at the previous character, conditions after at the next.
Rule `classes`: a condition on classes holds for a character of any of them, and at an end of the text exactly if a space would do.
Rule `fold`: letters are looked up in lower case; what has no single small letter stands for itself.
"""
import flow, seq, words
from words import Reader, Undecided
from rules.c12 import where
from rules.c18 import check, seq_, tup, chr_
from rules.c20 import inner
from terms import last, short

TR = "crate::translator::trie::"


def taken(t):
    """the next() call an element comes from"""
    while t[0] == "fld":
        t = t[1]
    return t if t[0] == "call" and last(t[1]) == "next" else None


def start_of(t):
    while t[0] in ("mut", "call") :
        if t[0] == "mut":
            t = t[3]
        elif t[2]:
            t = t[2][0]
        else:
            break
    return t


def passid(t):
    """where the iteration an element was taken in began"""
    t = t[2][0]
    while t[0] == "mut":
        t = t[3]
    return t


def chain(rep, P):
    path = TR + "Trie::insert"
    f = P.fns.get(path)
    if f is None:
        return 1
    W = where(f)
    und = n = 0
    faults = {}
    paths = [p for p in flow.Flow(P, loop_bound=2, max_paths=40000).paths(f) if not p.trunc and not p.div]
    loops = {}
    rows = []
    for p in paths:
        stored = [e for e in p.events if e[0] == "store" and e[1][0][0] == "fld" and e[1][0][3] == "translation"]
        ends = [e[1][0][1] for e in stored]
        if not ends:
            # nothing stored: the rule that is there stays (C19)
            ends = [c[1][1] for c in p.conds if c[0] in ("discr", "isv") and c[1][0] == "fld" and c[1][3] == "translation"]
        if len(set(ends)) != 1:
            und += 1
            continue
        keys = keys_of(ends[0])
        if keys is None:
            und += 1
            continue
        rows.append((p, keys, stored))
    # which of the passes over the conditions lays which kind
    kinds = {}
    for p, keys, stored in rows:
        d = [v[1] for c, v in p.conds.items() if c == ("discr", ("arg", 6)) and v[0] == "="]
        src = {"Forward": ("arg", 2), "Backward": ("arg", 3)}.get(d[0]) if len(d) == 1 else None
        to = {"Forward": ("arg", 3), "Backward": ("arg", 2)}.get(d[0]) if len(d) == 1 else None
        if src is None:
            und += 1
            continue
        passes = order_of_passes(p)
        got = []
        chars = 0
        ok = True
        for k in keys:
            g = describe(P, k, src, p, passes)
            if g is None:
                ok = False
                break
            got.append(g)
        if not ok:
            und += 1
            continue
        want = expected(p, src, passes, rows)
        if want is None:
            und += 1
            continue
        n += 1
        if got != want:
            faults.setdefault("path of a rule", "the path of a rule is %s instead of %s" % (say(got), say(want)))
        for e in stored:
            new = [x for x in flow.walk(e[1][1]) if x[0] == "call" and last(x[1]) == "new" and "ResolvedTranslation" in x[1]]
            if len(set(new)) != 1 or len(new[0][2]) < 3:
                und += 1
                continue
            a = new[0][2]
            if (a[0], a[1]) != (src, to):
                faults.setdefault("rule kept at the end of its path", "a rule is kept as the translation of %s to %s" % (short(a[0]), short(a[1])))
            c = weigh(a[2], src)
            if c is None:
                und += 1
            elif c != ("n", sum(1 for g in want if g[0] != "character")):
                faults.setdefault("weight of a rule", "a rule with %d conditions weighs %s" % (sum(1 for g in want if g[0] != "character"), "its characters and %d" % c[1] if c[0] == "n" else c[1]))
    if not n:
        return und + 1
    rep.count("paths of insert", n)
    for inst in ("path of a rule", "rule kept at the end of its path", "weight of a rule"):
        rep.check("chain", inst, inst not in faults, W, faults.get(inst, ""))
    return und


def keys_of(t):
    out = []
    while True:
        if t[0] == "call" and last(t[1]) in ("or_default", "or_insert_with", "or_insert") and t[2]:
            t = t[2][0]
            if t[0] != "call" or last(t[1]) != "entry":
                return None
            out.append(t[2][1])
            t = t[2][0]
            if t[0] != "fld" or t[3] != "transitions":
                return None
            t = t[1]
        elif t[0] == "fld" and t[3] == "root" and t[1] == ("arg", 1):
            return out[::-1]
        elif t[0] in ("mut", "upd"):
            t = t[3] if t[0] == "mut" else t[1]
        else:
            return None


def order_of_passes(p):
    """the passes over the conditions, in order: uid of the first next() of each"""
    out = []
    for e in p.events:
        if last(e[0]) == "next" and e[1] and e[1][0][0] != "mut" and any(x == ("arg", 8) for x in flow.walk(e[1][0])):
            out.append(e[2])
    return out


def pass_of(t, passes):
    """number of the pass an element was taken in"""
    t = taken(t)
    while t is not None:
        u = t[3] if len(t) > 3 else None
        a = t[2][0]
        if a[0] != "mut":
            return passes.index(u) if u in passes else None
        # the call before it
        uid = a[1]
        if uid in passes:
            return passes.index(uid)
        t = ("call", a[2], (a[3],), uid)
    return None


def describe(P, k, src, p, passes):
    if k[0] == "agg" and k[2] == "Character":
        c = k[4][0]
        el = [x for x in flow.walk(c) if x[0] == "call" and last(x[1]) == "next" and any(y == src for y in flow.walk(x)) and not any(y[0] == "call" and last(y[1]) == "to_lowercase" for y in flow.walk(x))]
        if not el:
            return ("character", "of the other side") if any(y[0] == "arg" for y in flow.walk(c)) else None
        i = max(sum(1 for y in flow.walk(x) if y[0] == "mut" and last(y[2]) == "next") for x in el)
        return ("character", i)
    if k[0] == "agg" and k[2] in ("Start", "End"):
        els = [x for x in flow.walk(k[4][0]) if x[0] == "call" and last(x[1]) == "next"]
        if not els:
            return None
        own = [x for x in flow.walk(k[4][0]) if x[0] == "call" and last(x[1]) == "resolve"]
        if len(own) != 1 or own[0][2][0] != ("fld", ("arg", 1), None, "ctx"):
            return None
        el = max(els, key=lambda x: sum(1 for _ in flow.walk(x)))
        return (k[2], pass_of(el, passes), sum(1 for y in flow.walk(el) if y[0] == "mut"))
    for i, name in ((4, "before"), (5, "after")):
        if any(x == ("arg", i) for x in flow.walk(k)):
            return (name,)
    return None


def expected(p, src, passes, rows):
    el = {}
    nchars = 0
    for c, v in p.conds.items():
        if c[0] != "discr" or v[0] != "=":
            continue
        if c[1][0] == "fld" and c[1][1][0] == "call" and last(c[1][1][1]) == "next" and v[1] in ("Start", "End"):
            t = c[1][1]
            el[(pass_of(t, passes), sum(1 for y in flow.walk(t) if y[0] == "mut"))] = v[1]
        elif c[1][0] == "call" and last(c[1][1]) == "next" and v[1] == "+":
            a = c[1][2][0]
            if a[0] in ("call", "mut") and any(y == src for y in flow.walk(a)) and not any(y[0] == "call" and last(y[1]) == "to_lowercase" for y in flow.walk(a)):
                nchars += 1
    has = lambda i: any(c == ("discr", ("arg", i)) and v == ("=", "+") or c == ("isv", ("arg", i), "+") and v == ("=", 1) for c, v in p.conds.items())
    if len(passes) != 2:
        return None
    out = [("Start",) + k for k in sorted(el) if k[0] == 0 and el[k] == "Start"]
    out += [("before",)] * has(4)
    out += [("character", i) for i in range(nchars)]
    out += [("after",)] * has(5)
    out += [("End",) + k for k in sorted(el) if k[0] == 1 and el[k] == "End"]
    return out


def weigh(t, src):
    if t[0] == "call" and last(t[1]) == "len" and t[2] == (src,) and ("str::" in t[1] or "impl str" in t[1] or "String" in t[1]):
        return ("c", "its bytes")
    if t[0] == "call" and last(t[1]) in ("count", "len") and any(y == src for y in flow.walk(t)):
        return ("n", 0)
    if t[0] == "bin" and t[1] == "Add":
        a, b = weigh(t[2], src), weigh(t[3], src)
        if a and b and "its bytes" in (a[1], b[1]):
            return ("c", "its bytes")
        if a and b:
            return ("n", a[1] + b[1]) if a[0] == "n" or b[0] == "n" else ("c", a[1] + b[1])
        return None
    if t[0] == "const":
        return ("c", t[1])
    return None


def say(ks):
    w = {"Start": "class before", "End": "class after", "before": "boundary before", "after": "boundary after", "character": "character"}
    return "[" + ", ".join("%s%s" % (w[k[0]], " %s" % k[-1] if k[0] == "character" else "") for k in ks) + "]"


def step(rep, P):
    path = TR + "Trie::find_translations_from_node"
    if path not in P.fns:
        return 1
    und = 0
    for ntr in (0, 1, 2):
        def child(lf, a):
            if a[1] != chr_(0):
                raise Undecided("another character")
            return ("obj", "behind") if lf.w.has("behind") else ("none",)

        def anyone(lf, a):
            return ("obj", "any") if lf.w.has("any") else ("none",)

        def matches(lf, a):
            return lf.w.ask(("flag", "%s matches %s" % (a[0][1], {("obj", "prev"): "previous", ("none",): "end"}.get(a[1], "next" if a[1] == ("some", chr_(0)) else "other"))), (True, False))

        def rec(lf, a):
            return seq_([("obj", "found(%s,%s,%s)" % (len(lf.seq(a[1])), name_of(a[2]), a[3][1]))])

        def name_of(v):
            return {("obj", "prev"): "previous"}.get(v, "next" if v in (("some", chr_(0)), chr_(0)) else "other")
        R = Reader(P, maxlen=2, bound=3, calls={"find_translations_from_node": rec, "TrieNode::char_transition": child, "TrieNode::any_transition": anyone, "ResolvedClasses::matches": matches},
                   opaque=("find_translations_from_node", "char_transition", "any_transition", "matches"), inline_pred=lambda f: False, guide=("find_translations_from_node",))

        def node(kinds):
            return ("var", "TrieNode", (("translation", ("obj", "held")), ("transitions", seq_(tup(("var", k, (("0", ("obj", "c%d" % i)),)), ("obj", "n%d" % i)) for i, k in enumerate(kinds)))))
        import itertools
        for kinds in itertools.product(("Start", "End", "Character"), repeat=ntr):
            env = {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0), ("arg", 3): ("obj", "prev"), ("arg", 4): node(kinds), ("arg", 5): 0}

            def want(lf, kinds=kinds):
                w = lf.w
                k = w.length("input", 2)
                out = []
                if w.has("held"):
                    out.append("held")
                if k and w.has("behind"):
                    out.append("found(%d,next,behind)" % (k - 1))
                elif k and w.has("any"):
                    out.append("found(%d,next,any)" % (k - 1))
                for i, kd in enumerate(kinds):
                    ask = {"Start": "previous", "End": "next" if k else "end"}.get(kd)
                    if ask and w.ask(("flag", "c%d matches %s" % (i, ask)), (True, False)):
                        out.append("found(%d,previous,n%d)" % (k, i))
                return sorted(out)
            und += check(rep, R, "step", path, env, want, "look-up at a node with %s" % (" and ".join(kinds) or "no conditions"), "a look-up gives the rules whose characters and conditions hold",
                         got=lambda lf: sorted(x[1] for x in lf.seq(lf.val(lf.path.ret))))
    # it starts at the root, with the whole text
    R = Reader(P, calls={"find_translations_from_node": lambda lf, a: ("tup", tuple(a[1:4]))}, opaque=("find_translations_from_node",))
    und += check(rep, R, "step", TR + "Trie::find_translations", {("arg", 1): ("obj", "self"), ("arg", 2): ("obj", "input"), ("arg", 3): ("obj", "prev")},
                 lambda lf: tup(("obj", "input"), ("obj", "prev"), ("obj", "self.root")), "look-up from the root", "a look-up starts at the root with the text and what precedes it")
    return und


def run(rep, L, B):
    rep.parts([chain, step, conditions, folded], L)


def conditions(rep, P):
    und = 0
    path = TR + "ResolvedClasses::matches"
    R = Reader(P, calls={"binary_search": lambda lf, a: ("some", 0) if lf.w.member("chars", a[1]) else ("none",), "::contains": lambda lf, a: lf.w.member("chars", a[1])})
    R.rename = {"self.chars": "chars", "self.includes_space": "space"}
    for c in ("some", "none"):
        env = {("arg", 1): ("obj", "self"), ("arg", 2): ("some", ("obj", "c")) if c == "some" else ("none",)}
        und += check(rep, R, "classes", path, env, lambda lf, c=c: lf.w.member("chars", ("obj", "c")) if c == "some" else lf.w.flag("space"), "condition on %s" % ("a character" if c == "some" else "an end of the text"),
                     "a condition holds for the characters of its classes, and at an end of the text if a space would do", got=lambda lf: lf.truth(lf.val(lf.path.ret)))
    # what the condition is made of
    f = P.fns.get(TR + "ResolvedClasses::resolve")
    if f is None:
        return und + 1
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div or p.ret[0] != "agg" or len(p.ret[3]) != 2:
            und += 1
            continue
        d = dict(zip(p.ret[3], p.ret[4]))
        ch, sp = d.get("chars"), d.get("includes_space")
        if ch is None or sp is None:
            und += 1
            continue
        ops = []
        t = ch
        while t[0] in ("mut", "call"):
            if t[0] == "mut":
                ops.append(last(t[2]))
                t = t[3]
            else:
                ops.append(last(t[1]))
                if last(t[1]) in ("filter_map", "flat_map", "map"):
                    src = t
                    break
                if not t[2]:
                    break
                t = t[2][0]
        sorts = any(o.startswith("sort") for o in ops) or any("BTreeSet" in x[1] for x in flow.walk(ch) if x[0] == "call")
        searched = any(last(e[0]).startswith("binary_search") for q in flow.Flow(P).paths(P.fns[path]) for e in q.events) if path in P.fns else True
        # collected more than once: perhaps into a set that keeps its order
        und_sort = not sorts and searched and (not any(o in ("filter_map", "flat_map") for o in ops) or ops.count("collect") + ops.count("from_iter") > 1)
        if und_sort:
            und += 1
        elif searched:
            rep.check("classes", "characters of a condition are in order", sorts, where(f), "the characters of a condition are not sorted, but searched as if they were")
            if sorts:
                i = [j for j, o in enumerate(ops) if o.startswith("sort")]
                j = [j for j, o in enumerate(ops) if o in ("push", "extend", "insert", "append", "reverse", "rotate_left")]
                rep.check("classes", "characters of a condition stay in order", not i or not j or min(i) < min(j), where(f), "characters are added to a condition after they were sorted")
        if t[0] == "call" and last(t[1]) in ("filter_map", "flat_map") and len(t[2]) == 2:
            base = t[2][0]
            while base[0] == "call" and base[2] and last(base[1]) in ("iter", "into_iter"):
                base = base[2][0]
            try:
                rs = seq.apply(P, t[2][1], [("arg", 9)])
                ok = base == ("arg", 2) and all(r[0] == "call" and last(r[1]) == "get" and ("arg", 9) in r[2] for c, r, e in rs)
                rep.check("classes", "characters of all classes", ok, where(f), "a condition is not made of the characters of all its classes")
            except seq.Unknown:
                und += 1
        else:
            und += 1
        asked = [(c, v) for c, v in p.conds.items() if c[0] == "call" and last(c[1]) == "contains" and c[2][0] == ("arg", 2) and c[2][1][0] == "agg" and c[2][1][2] == "Space" and v[0] == "="]
        if sp[0] == "call" and last(sp[1]) == "contains" and len(sp[2]) == 2 and sp[2][1][0] == "agg":
            rep.check("classes", "ends of the text", sp[2][0] == ("arg", 2) and sp[2][1][2] == "Space", where(f), "at an end of the text a condition holds if %s would do" % sp[2][1][2].lower())
        elif len(asked) == 1 and (sp[0] == "const" or sp[0] == "call" and last(sp[1]) == "is_empty"):
            rep.check("classes", "ends of the text", sp[0] == "const" and bool(sp[1]) == bool(asked[0][1][1]), where(f), "at an end of the text a condition holds not exactly if a space would do")
        else:
            und += ends(rep, P, f)
    return und


def ends(rep, P, f):
    """whether a condition holds at an end of the text, for lists of up to three classes"""
    import itertools
    R = Reader(P)
    und = 0
    lists = [c for n in range(4) for c in itertools.permutations(("Letter", "Space", "Punctuation"), n)]
    for c in lists:
        env = {("arg", 1): ("obj", "classes"), ("arg", 2): ("seq", tuple(("var", x, ()) for x in c))}
        u = check(rep, R, "classes", f.path, env, lambda lf, c=c: "Space" in c, "ends of the text",
                  "at an end of the text a condition holds if white space is among its classes", got=lambda lf: lf.truth(lf.val(dict(zip(lf.path.ret[3], lf.path.ret[4]))["includes_space"])))
        und += 1 if u else 0
    return und


def folded(rep, P):
    und = 0
    f = P.fns.get(TR + "fold_case")
    if f is None:
        return 1
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            und += 1
            continue
        got = [v[1] for c, v in p.conds.items() if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next" and v[0] == "="]
        low = any(last(e[0]) == "to_lowercase" and e[1][0] == ("arg", 1) for e in p.events)
        if not low or not 1 <= len(got) <= 2:
            und += 1
            continue
        single = got == ["+", "-"]
        first = p.ret[0] == "fld" and p.ret[1][0] == "call" and last(p.ret[1][1]) == "next" and p.ret[1][2][0][0] == "call"
        if not first and p.ret != ("arg", 1):
            und += 1
            continue
        rep.check("fold", "a letter with %s" % ("one small letter" if single else "none or several small letters"), first == single, where(f),
                  "a character with %s small letter is looked up as %s" % ("one" if single else "none or more than one", "its first small letter" if first else "itself"))
    # both sides fold
    for m in ("TrieNode::char_transition",):
        g = P.fns.get(TR + m)
        if g is None:
            und += 1
            continue
        for p in flow.Flow(P, opaque=(TR + "fold_case",)).paths(g):
            gets = [e for e in p.events if last(e[0]) == "get"]
            if p.trunc or len(gets) != 1:
                und += 1
                continue
            k = gets[0][1][1]
            if k[0] != "agg" or k[2] != "Character":
                und += 1
                continue
            v = k[4][0]
            ok = v[0] == "call" and last(v[1]) == "fold_case" and v[2] == (("arg", 2),)
            rep.check("fold", "look-up of a character", ok, where(g), "a character is not looked up as it was inserted")
    f = P.fns.get(TR + "Trie::insert")
    if f is not None:
        seen = set()
        for p in flow.Flow(P, opaque=(TR + "fold_case",), loop_bound=1).paths(f):
            for e in p.events:
                if last(e[0]) == "entry" and e[1][1][0] == "agg" and e[1][1][2] == "Character":
                    v = e[1][1][4][0]
                    seen.add(v[0] == "call" and last(v[1]) == "fold_case" and taken(v[2][0]) is not None)
        if not seen:
            und += 1
        else:
            rep.check("fold", "characters of a rule", seen == {True}, where(f), "the characters of a rule are not folded as those of the text are")
    return und


LEVEL = "other"
EXPLANATION = ("All paths of the insertion, with up to two characters and two conditions on each side, are enumerated and the path laid from the root, what is kept at its end and its weight are compared with the specified ones; "
               "one step of the look-up is read as a decision tree over nodes with up to two conditions, every one of which may hold or not, and compared with the specified result; the rest follows by induction over the path of a rule. "
               "The making and the testing of conditions and the folding of letters are compared with their definitions.")
ASSUMPTIONS = ["up to two characters and two conditions per side when inserting, up to two conditions at a node when looking up; the code treats further ones in the same loops",
               "the standard library's maps, sorting and binary search work as documented"]
