"""C22: emphasis.

Rule `kept`: every opcode of an emphasis class keeps what it is given in a place of its own in the class it names; the classes
of a table are used in the order they were defined, each once, and those without any indicator are left out.
Rule `signs`: the indicators put into a text are, under all facts about its characters, about the spans of the caller and about
the opcodes of the class, those the definition of emphasis names.
Rule `order`: indicators of several classes at one position are nested: what ends there ends first, in the inverse order of the
beginnings, and what spans more begins first.
Rule `spans`: a span covers the characters of its range that the text has.
"""
import flow, words
from words import Reader, Undecided, Infeasible
from roles import roles, fields_of, setter
from seq import stages
from rules.c12 import where
from rules.c18 import check, tup, seq_, chr_, T
from rules.c20 import whitespace, inner, switch
from terms import last, short

E_ = "crate::translator::indication::emphasis::"
SIGNS = ("emphletter", "begemph", "endemph", "begemphword", "endemphword", "begemphphrase", "endemphphrase")
INDICATING = ("emphletter", "begemphword", "begemph", "begemphphrase")
STEP = {"End": 0, "Close": 1, "Open": 2, "Begin": 3}


def classfield(place):
    """the field of the class the opcode names"""
    fs, t = [], place
    while t[0] == "fld":
        if not t[3].isdigit():
            fs.append(t[3])
        t = t[1]
    while t[0] in ("mut", "upd"):
        t = t[3] if t[0] == "mut" else t[1]
    if t[0] == "call" and last(t[1]) == "class_mut" and t[2][:2] == (("arg", 1), ("arg", 2)) and fs:
        return fs[0]
    return None


def names(P):
    """{field of a class: opcode}"""
    b = E_ + "IndicatorBuilder"
    out = {}
    for m in SIGNS + ("lenemphphrase", "emphmodechars", "noemphchars"):
        f = P.fns.get(b + "::" + m)
        for _, place, how, k in (setter(P, f) or ()) if f else ():
            n = classfield(place)
            if n and k and k[0] != "const":
                out[n] = m
    return out


def kept(rep, P):
    b = E_ + "IndicatorBuilder"
    t = lambda n: ("translation", ("arg", 3), ("arg", n))
    spec = {n: ("set", t(4)) for n in SIGNS}
    spec["endemphphrase"] = ("set", t(5))
    spec["lenemphphrase"] = ("set", ("plain", ("arg", 3)))
    spec["emphmodechars"] = spec["noemphchars"] = ("set", ("chars", ("arg", 3)))
    rl, und = roles(rep, P, "kept", b, spec, recv=classfield)
    f = P.fns.get(b + "::endemphphrase")
    got = {}
    for conds, place, how, k in (setter(P, f) or ()) if f else ():
        v = conds.get(("discr", ("arg", 4)))
        n = classfield(place)
        if n and k and k[0] == "const" and v and v[0] == "=":
            got.setdefault(n, {})[v[1]] = k[1]
    if len(got) != 1 or set(next(iter(got.values()))) != {"Before", "After"}:
        und += 1
    else:
        rep.check("kept", "before of endemphphrase", next(iter(got.values())) == {"Before": 1, "After": 0}, where(f), "endemphphrase takes before for after")
    # a new class has nothing, and phrases of four words
    new = P.fns.get(E_ + "ClassIndicator::new")
    v = None
    for p in flow.Flow(P).paths(new) if new else ():
        v = dict(zip(p.ret[3], p.ret[4])) if p.ret and p.ret[0] == "agg" else None
    if v is None:
        und += 1
    else:
        for name, r in rl.items():
            x = v.get(name)
            if r in SIGNS:
                rep.check("kept", "no %s by default" % r, x is not None and x[0] == "agg" and x[2] == "None", where(new), "a class without %s indicates with it" % r)
            elif r == "lenemphphrase":
                rep.check("kept", "default of lenemphphrase", x == ("const", 4), where(new), "without lenemphphrase a phrase starts at %s words" % short(x))
        for name in got:
            rep.check("kept", "phrases end before the last word by default", v.get(name) == ("const", 1), where(new), "by default phrases end after the last word")
    # the class an opcode names is made once, and remembered in the order of the definitions
    cm = P.fns.get(b + "::class_mut")
    for p in flow.Flow(P).paths(cm) if cm else ():
        if p.trunc or p.div:
            continue
        known = [v for c, v in p.conds.items() if c[0] == "call" and last(c[1]) == "contains_key"]
        if len(known) != 1 or known[0][0] != "=":
            und += 1
            continue
        pushed = [e for e in p.events if last(e[0]) == "push"]
        made = [e for e in p.events if last(e[0]) == "insert" and len(e[1]) == 3]
        if known[0][1]:
            rep.check("kept", "a class that is known is kept", not pushed and not made, where(cm), "an opcode for a class makes the class anew")
        else:
            rep.check("kept", "a class is remembered in order", len(pushed) == 1 and fields_of(base(pushed[0][1][0]), ("arg", 1)) is not None and named(pushed[0][1][1]), where(cm), "a new class is not put at the end of the classes")
            rep.check("kept", "a class is made under its name", len(made) == 1 and named(made[0][1][1]) and any(x[0] == "call" and last(x[1]) == "new" and named(x[2][0]) for x in flow.walk(made[0][1][2]) if x[0] == "call" and x[2])
                      or len(made) == 1 and made[0][1][2][0] == "agg", where(cm), "a new class does not have the name the opcode gives it")
    if cm is None:
        und += 1
    return und


def base(t):
    while t[0] in ("mut", "upd"):
        t = t[3] if t[0] == "mut" else t[1]
    return t


def named(t):
    while t[0] == "call" and len(t[2]) == 1:
        t = t[2][0]
    return t == ("arg", 2)


def built(rep, P):
    """build(): the classes in order, without those that indicate nothing"""
    b = E_ + "IndicatorBuilder"
    nm = names(P)
    cm = P.fns.get(b + "::class_mut")
    order = {fields_of(base(e[1][0]), ("arg", 1)) for p in (flow.Flow(P).paths(cm) if cm else ()) for e in p.events if last(e[0]) == "push"}
    if len(order) != 1 or None in order or len(nm) < len(SIGNS):
        return 1
    order = order.pop()

    def remove(lf, a):
        return ("some", ("obj", a[1][1] + ".class"))
    R = Reader(P, calls={"TableContext::character_classes": lambda lf, a: ("obj", "classes"), "::remove": remove}, inline_pred=inner(E_), guide=("IndicatorBuilder::build",))
    R.rename = {"n%d.class.%s" % (k, f): "n%d.%s" % (k, r) for k in range(3) for f, r in nm.items()}
    env = {("arg", 1): ("obj", "b"), ("arg", 2): ("obj", "ctx"), ("fld", ("arg", 1), None, order[-1]): seq_(("obj", "n%d" % k) for k in range(3))}

    def want(lf):
        w = lf.w
        return tuple(k for k in range(3) if any(w.has("n%d.%s" % (k, n)) for n in INDICATING))

    def got(lf):
        if lf.path.ret[2] == "None":
            return ()
        x = lf.val(lf.path.ret)
        for v in objects(x):
            if v[0] == "seq":
                out = []
                for c in v[1]:
                    o = next((y for y in objects(c) if y[0] == "obj" and y[1].endswith(".class")), None)
                    if o is None:
                        raise Undecided("class")
                    out.append(int(o[1][1]))
                return tuple(out)
        raise Undecided("classes")
    return check(rep, R, "kept", b + "::build", env, want, "classes of a table", "the classes that have an indicator are used in the order of their definition", got=got)


def objects(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            yield from objects(x)


def runs(n, on):
    i = 0
    while i < n:
        if not on(i):
            i += 1
            continue
        j = i
        while j < n and on(j):
            j += 1
        yield i, j
        i = j


def marks(w, c, n, on):
    """[(position, sign, step, key of nesting)] of one class"""
    out = []
    has = lambda x: w.has("%s.%s" % (c, x))

    def sep(i):
        if w.empty(c + ".emphmodechars"):
            return w.member("space", chr_(i))
        return w.member(c + ".emphmodechars", chr_(i))
    put = lambda i, x, step, key=0: out.append((i, ("obj", "%s.%s" % (c, x)), STEP[step], key))

    def word(a, e):
        if e - a == 1 and has("emphletter"):
            put(a, "emphletter", "Begin")
        elif has("begemphword"):
            put(a, "begemphword", "Begin")
    for a, e in runs(n, lambda i: on(i) and (w.empty(c + ".noemphchars") is True or not w.member(c + ".noemphchars", chr_(i)))):
        inside = [i for i in range(a, e) if not sep(i)]
        if has("begemph"):
            start = inside[0] if inside else a
            put(start, "begemph", "Open", -e)
            if has("endemph"):
                put(inside[-1] + 1 if inside else e, "endemph", "Close", -start)
            continue
        ws = [(a + x, a + y) for x, y in runs(e - a, lambda i: a + i in inside)]
        if not ws:
            continue
        first, end = ws[0][0], ws[-1][1]
        if (first == 0 or sep(first - 1)) and (end >= n or sep(end)):
            if has("begemphphrase") and len(ws) >= w.ask(("int", c + ".lenemphphrase"), (1, 2, 3, 4)):
                put(first, "begemphphrase", "Begin")
                if w.flag(c + ".before"):
                    word(*ws[-1])
                elif has("endemphphrase"):
                    put(end, "endemphphrase", "End")
            else:
                for x in ws:
                    word(*x)
            continue
        if len(inside) == 1 and has("emphletter"):
            put(first, "emphletter", "Begin")
        elif has("begemphword"):
            put(a, "begemphword", "Begin")
            if has("endemphword") and e < n and not sep(e):
                put(e, "endemphword", "End")
        elif has("begemphphrase"):
            put(a, "begemphphrase", "Begin")
            if has("endemphphrase") and e < n:
                put(e, "endemphphrase", "End")
    return out


def signs_reader(P, n, classes, maxspans):
    nm = names(P)
    R = Reader(P, maxlen=n, bound=max(n, maxspans, classes) + 1, calls={"CharacterClasses::is_whitespace": whitespace},
               inline_pred=inner(E_, "crate::translator::indication::find_spans"), guide=("Indicator::precompute",))
    R.jobs = 8
    f = P.fns.get(E_ + "IndicatorBuilder::endemphphrase")
    for _, place, how, k in (setter(P, f) or ()) if f else ():
        if classfield(place) and k and k[0] == "const":
            nm = dict(nm, **{classfield(place): "before"})
    R.rename = {"c%d.%s" % (k, x): "c%d.%s" % (k, r) for k in range(classes) for x, r in nm.items()}
    R.rename.update({"c%d.class_name" % k: "c%d.name" % k for k in range(classes)})
    R.ints = {".lenemphphrase": (1, 2, 3, 4)}
    return R, "before" in nm.values() and len(nm) == 11


def span(name, a, e):
    return ("var", "EmphasisSpan", (("class", ("obj", name + ".class")), ("range", ("var", "Range", (("start", a), ("end", e))))))


def indicated(w, c):
    if not any(w.has("%s.%s" % (c, x)) for x in INDICATING):
        raise Infeasible()      # never built


def env_of(P, spans, classes):
    adt = P.adts.get(E_ + "Indicator")
    fs = [f[0] for v in adt["variants"] for f in v["fields"]] if adt else []
    if len(fs) != 1:
        return None
    return {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0), ("arg", 3): seq_(spans), ("fld", ("arg", 1), None, fs[0]): seq_(("obj", "c%d" % k) for k in range(classes))}


def same(w, s, c):
    k = sorted((s + ".class", c + ".name"))
    return w.ask(("same", k[0], k[1]), (True, False))


def signs(rep, P):
    """one class, all texts: any positions may be covered"""
    n = words.MAX + 1
    R, ok = signs_reader(P, n, 1, n)
    env = env_of(P, [span("s%d" % i, i, i + 1) for i in range(n)], 1)
    if not ok or env is None:
        return 1

    def want(lf):
        w = lf.w
        indicated(w, "c0")
        k = w.length("input", R.maxlen)
        out = marks(w, "c0", k, lambda i: same(w, "s%d" % i, "c0"))
        return seq_(tup(i, t) for i, t, _, _ in sorted(out, key=lambda x: (x[0], x[2], x[3])))
    return check(rep, R, "signs", E_ + "Indicator::precompute", env, want, "emphasis signs",
                 "each emphasised letter, word and phrase has the signs its class defines for it")


def order(rep, P):
    """two classes over one text"""
    und = 0
    for inst, n, only in (("nested signs", words.MAX, ("begemph", "endemph")), ("signs of two classes", 2, None)):
        R, ok = signs_reader(P, n, 2, 2 * n)
        env = env_of(P, [span("s%d%d" % (c, i), i, i + 1) for c in range(2) for i in range(n)], 2)
        if not ok or env is None:
            return 1

        def deny(w, key, d, only=only):
            if key[0] == "same":
                s = key[1] if key[1].startswith("s") else key[2]
                c = key[1] if key[1].startswith("c") else key[2]
                return d and s[1] != c[1]
            if key[0] == "some" and only:
                return d != (key[1].split(".")[-1] in only)
            if key[0] == "empty":
                return not d
            if key[0] == "int":
                return d != 1
            return False
        R.deny = (deny,)

        def want(lf):
            w = lf.w
            k = w.length("input", R.maxlen)
            out = []
            for c in range(2):
                indicated(w, "c%d" % c)
                for i, t, step, key in marks(w, "c%d" % c, k, lambda i: same(w, "s%d%d" % (c, i), "c%d" % c)):
                    out.append((i, step, key, {2: -c, 1: c}.get(step, 0), t))
            return seq_(tup(x[0], x[4]) for x in sorted(out, key=lambda x: x[:4]))
        und += check(rep, R, "order", E_ + "Indicator::precompute", env, want, inst,
                     "what ends at a position ends before anything begins there, innermost first, and what spans more begins first")
    return und


def spans(rep, P):
    """one or two spans with any ends"""
    n = words.MAX
    R, ok = signs_reader(P, n, 1, 2)
    R.bound = n + 2
    env = env_of(P, [span("s%d" % i, ("obj", "s%d.start" % i), ("obj", "s%d.end" % i)) for i in range(2)], 1)
    if not ok or env is None:
        return 1
    R.ints = {".start": tuple(range(n + 1)), ".end": tuple(range(n + 2))}

    def deny(w, key, d):
        if key[0] == "some":
            return d != (key[1].split(".")[-1] == "begemph" or key[1].split(".")[-1] == "endemph")
        if key[0] in ("empty", "in") and key[1].endswith("noemphchars"):
            return False
        return key[0] in ("empty", "in") and d != (key[0] == "empty")
    R.deny = (deny,)

    def want(lf):
        w = lf.w
        k = w.length("input", R.maxlen)
        ask = lambda s, e: w.ask(("int", s + e), R.ints[e])
        on = set()
        for s in ("s0", "s1"):
            if same(w, s, "c0"):
                a = ask(s, ".start")
                on |= set(range(a, min(k, ask(s, ".end"))))
        out = marks(w, "c0", k, lambda i: i in on)
        return seq_(tup(i, t) for i, t, _, _ in sorted(out, key=lambda x: (x[0], x[2], x[3])))
    return check(rep, R, "spans", E_ + "Indicator::precompute", env, want, "spans", "a span covers the characters of its range")


def run(rep, L, B):
    rep.parts([kept, built, signs, order, spans], L)


LEVEL = "other"
EXPLANATION = ("The setters and build function of the emphasis indicator, and the function that puts the indicators into a text, are read as decision trees over facts about an unnamed text, the caller's spans "
               "and the opcodes of one or two classes; every path is compared with the definition of emphasis under the same facts.")
ASSUMPTIONS = ["texts of up to four characters with one class (thorough: five), of up to three (four) with two classes that have only begemph and endemph, of up to two with all their opcodes",
               "phrase lengths of one to four words"]
