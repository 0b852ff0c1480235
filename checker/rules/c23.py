"""C23: the command line tool shows what the library computes.

Rule `query`: over every query of up to three pairs (thorough: four) and every index, find() gives the tables that have every pair.
Rule `index`: over search paths of up to two directories with their entries and lines, index() records exactly the pairs of the
lines `#+key:value` of every readable file under that file, and fails exactly if a directory cannot be read.
Rule `rows`: the rows of a trace are the applied rules in order, numbered from one, each with its own input, output, rule and
stage; only steps of other stages than the main one that stem from no rule are left out.
Rule `shown`: every path of the dispatcher computes what its command says from the arguments it was given, and prints exactly
that; each line of a session is handled on its own by the same computation; errors of tables are printed.
"""
import flow, words
from words import Reader, Undecided, NONE
from rules.c12 import where
from rules.c18 import check, seq_, tup
from terms import last, short

M = "crate::metadata::"
T_ = "crate::translator::translation::ResolvedTranslation::"
PIPE = "crate::translator::pipeline::TranslationPipeline::"


def obj(n):
    return ("obj", n)


# ---- metadata
def query(rep, P):
    top = 4 if words.MAX > 3 else 3
    tables = ("a", "b")
    R = Reader(P, maxlen=3)

    def pairs(w):
        n = w.ask(("pairs of the query",), range(1, top + 1))
        return seq_(tup(obj("k%d" % i), obj("v%d" % i)) for i in range(n))

    def of(w, i):
        """the tables with pair i, or None"""
        if not w.has("pair %d" % i):
            return None
        return [t for t in tables if w.member("tables of pair %d" % i, obj(t))]

    def get(lf, a):
        if a[0] != obj("index") or a[1][0] != "tup":
            raise Undecided("looked up in something else")
        k, v = a[1][1]
        if k[1][:1] != "k" or v[1] != "v" + k[1][1:]:
            return obj("other pair")
        s = of(lf.w, int(k[1][1:]))
        return NONE if s is None else ("some", seq_(obj(t) for t in s))
    R.calls = {"HashMap::<K, V, S, A>::get": get, "HashMap::<K, V, S>::get": get,
               "HashSet::<T, S, A>::contains": lambda lf, a: a[1] in lf.seq(a[0])}

    def want(lf):
        n = lf.w.facts[("pairs of the query",)]
        sets = [of(lf.w, i) for i in range(n)]
        return tuple(t for t in tables if all(s is not None and t in s for s in sets))

    def got(lf):
        return tuple(sorted({x[1] for x in lf.seq(lf.val(lf.path.ret))}))
    return check(rep, R, "query", M + "find", lambda w: {("arg", 1): obj("index"), ("arg", 2): pairs(w)}, want, "tables of a query",
                 "a query gives the tables that have every pair of it", got=got)


def asks(P, f):
    """what a closure over a character asks of it"""
    if f[0] == "fnv":
        return last(f[1])
    if f[0] != "clo" or f[1] not in P.fns:
        raise Undecided("predicate")
    ps = flow.Flow(P).paths(P.fns[f[1]])
    t = ps[0].ret
    if len(ps) != 1 or t[0] != "call" or any(x[0] != "arg" for x in t[2]):
        raise Undecided("predicate " + short(t))
    return last(t[1])


def index(rep, P):
    R = Reader(P, maxlen=2)
    R.guide = ("metadata::index",)
    some = lambda w, n: ("some", obj(n)) if w.has(n) else NONE

    def dirs(lf, a):
        return seq_(obj("dir%d" % i) for i in range(lf.w.ask(("directories",), (0, 1, 2)))) if a[0] == obj("search path") else seq_(())

    def sp(lf, a):
        return obj("search path" if a == [("text", "LOUIS_TABLE_PATH"), ("text", ".")] else "another search path")

    def entries(w, d):
        if not w.has(d):
            return None
        return ["%s.file%d" % (d, i) for i in range(w.ask(("entries", d), (0, 1, 2) if d == "dir0" else (0, 1)))]

    def read_dir(lf, a):
        e = entries(lf.w, a[0][1])
        return NONE if e is None else ("some", seq_(obj(x) for x in e))

    def lines(w, f):
        return ["%s.line%d" % (f, i) for i in range(w.ask(("lines", f), (0, 1, 2) if f == "dir0.file0" else (1,)))]

    def strip(lf, a):
        if a[1] != ("text", "#+"):
            return obj(a[0][1] + " stripped of something else")
        return some(lf.w, a[0][1] + ".meta")

    def split(lf, a):
        if a[1] not in (("lit", ":"), ("text", ":")):
            return obj(a[0][1] + " split elsewhere")
        n = a[0][1] + ".pair"
        return ("some", tup(obj(n + ".key"), obj(n + ".value"))) if lf.w.has(n) else NONE

    def last_colon(lf, a):
        n = a[0][1] + ".pair"
        return ("some", tup(obj(n + ".up to the last colon"), obj(n + ".after the last colon"))) if lf.w.has(n) else NONE

    def every(lf, a):
        return lf.w.flag("%s all %s" % (a[0][1], asks(P, a[1])))

    def same(lf, a):
        return a[0]

    def name(suffix):
        return lambda lf, a: obj(a[0][1] + suffix)
    R.calls = {"SearchPath::new_or": sp, "SearchPath::iter": dirs, "fs::read_dir": read_dir, "DirEntry::path": name(".path"),
               "fs::read_to_string": lambda lf, a: some(lf.w, a[0][1][:-5] + ".text") if a[0][1].endswith(".path") else obj("other text"),
               "<impl str>::lines": lambda lf, a: seq_(obj(x) for x in lines(lf.w, a[0][1][:-5])), "<impl str>::strip_prefix": strip,
               "<impl str>::split_once": split, "<impl str>::rsplit_once": last_colon, "<impl str>::trim": name(".trim"), "Iterator>::all": every, "Iterator::all": every,
               "<impl str>::is_empty": lambda lf, a: lf.w.empty(a[0][1]), "String::is_empty": lambda lf, a: lf.w.empty(a[0][1])}

    def found(w, line):
        """(key, value) of a line of metadata"""
        if not w.has(line + ".meta") or not w.has(line + ".meta.pair"):
            return None
        k, v = (line + ".meta.pair.%s.trim" % x for x in ("key", "value"))
        if w.empty(k) or w.empty(v) or not w.flag(k + ".chars() all is_ascii_alphanumeric") or not w.flag(v + ".chars() all is_ascii_graphic"):
            return None
        return k, v

    def want(lf):
        w = lf.w
        out = set()
        for i in range(w.ask(("directories",), (0, 1, 2))):
            es = entries(w, "dir%d" % i)
            if es is None:
                return "an error"
            for e in es:
                if not w.has(e):
                    return "an error"
                if not w.has(e + ".text"):
                    continue
                for l in lines(w, e):
                    kv = found(w, l)
                    if kv:
                        out.add((kv, e + ".path"))
        return tuple(sorted(out))

    def got(lf):
        r = lf.path.ret
        if r[0] != "agg" or r[2] not in ("Ok", "Err"):
            raise Undecided("result")
        if r[2] == "Err":
            return "an error"
        out = set()
        for e in lf.path.events:
            if last(e[0]) == "insert" and "HashSet" in e[0]:
                x = e[1][0]
                if x[0] != "call" or not last(x[1]).startswith("or_") or x[2][0][0] != "call" or last(x[2][0][1]) != "entry":
                    raise Undecided("recorded")
                k = lf.val(x[2][0][2][1])
                out.add((tuple(y[1] for y in k[1]), lf.val(e[1][1])[1]))
            elif last(e[0]) in ("remove", "clear", "retain") or last(e[0]) == "insert":
                raise Undecided("recorded by " + e[0])
        return tuple(sorted(out))
    R.seconds = 200
    return check(rep, R, "index", M + "index", {}, want, "tables by metadata",
                 "the index holds every pair of key and value of every table of the search path, and no other", got=got)


# ---- what is shown
def rows(rep, P):
    R = Reader(P, maxlen=3)
    steps = ("s0", "s1", "s2")
    styles = tuple(v["name"] for v in P.adts["crate::TraceStyle"]["variants"])

    def stage(lf, a):
        return ("var", "Main" if lf.w.flag(a[0][1] + ".main") else "Pre", ())
    R.calls = {"ResolvedTranslation::stage": stage, "ResolvedTranslation::origin": lambda lf, a: obj(a[0][1] + ".origin"),
               "ResolvedTranslation::input": lambda lf, a: obj(a[0][1] + ".input"), "ResolvedTranslation::output": lambda lf, a: obj(a[0][1] + ".output")}

    def given(w):
        n = w.ask(("steps of the first stage",), (0, 1, 2))
        m = w.ask(("steps of the second stage",), (0, 1))
        return seq_([seq_(obj(x) for x in steps[:n]), seq_(obj(x) for x in steps[n:n + m])])

    def want(lf):
        w = lf.w
        n = w.facts[("steps of the first stage",)] + w.facts[("steps of the second stage",)]
        out = []
        for s in steps[:n]:
            main = w.flag(s + ".main")
            if main or w.has(s + ".origin"):
                out.append((len(out) + 1, s + ".input", s + ".output", s + ".origin", "Main" if main else "Pre"))
        return tuple(out)

    def got(lf):
        made = [e for e in lf.path.events if last(e[0]) in ("new", "from", "builder") and "tabled" in e[0] and e[1]]
        shown = [e for e in lf.path.events if e[0] == "std::io::_print"]
        if len(made) != 1 or len(shown) != 1 or not any(x[:1] == ("call",) and x[3:] == (made[0][2],) for x in flow.walk(shown[0][1][0])):
            raise Undecided("one table of rows")
        out = []
        for r in lf.seq(lf.val(made[0][1][0])):
            d = dict(r[2])
            out.append((d["sequence_id"], d["from"][1], d["to"][1], d["rule"][1], d["stage"][1]))
        return tuple(out)
    return check(rep, R, "rows", "crate::print_trace", lambda w: {("arg", 1): given(w), ("arg", 2): ("var", w.ask(("style",), styles), ())}, want, "rows of a trace",
                 "a trace has a row for every rule applied, in order, numbered from one", got=got)


OUT = ("_print", "_eprint", "print_trace", "print_errors", "repl", "check_yaml")
HANDLERS = ("crate::translate", "crate::trace", "crate::parse")


def r(t, names=None):
    """a value by what was computed from what, without the wrapping"""
    if names and t in names:
        return names[t]
    if t[0] == "fld":
        if t[2] in ("Check", "Parse", "Query", "Trace", "Translate"):
            return "$" + str(t[3])
        if t[2] in ("+", "-", "Ok", "Err", "Some") or t[3] == "0" and t[1][0] == "call":
            return ("error of " if t[2] in ("-", "Err") else "") + r(t[1], names)
        return r(t[1], names) + "." + str(t[3])
    if t[0] in ("ok", "as", "okor", "resid", "maperr"):
        return r(t[1], names)
    if t[0] == "call":
        if last(t[1]) == "next" and t[2]:
            b = t[2][0]
            while b[0] == "mut" and last(b[2]) == "next":
                b = b[3]
            return "each(%s)" % r(b, names)
        if last(t[1]) in ("iter", "into_iter", "as_path", "as_str", "deref", "as_ref", "clone", "borrow") and len(t[2]) == 1:
            return r(t[2][0], names)
        return last(t[1]) + "(%s)" % ",".join(r(x, names) for x in t[2])
    if t[0] == "fn":
        return last(t[1])
    if t[0] == "closure":
        return "closure"
    if t[0] == "const":
        return repr(t[1])
    if t[0] == "agg" and not t[4]:
        return t[2]
    if t[0] == "arg":
        return "arg%d" % t[1]
    if t[0] == "str" or t[0] == "char":
        return repr(t[1])
    if t[0] == "fmt":
        a = [("debug " if x[1] == "new_debug" else "") + r(x[2], names) for x in t[2] if x[0] == "fmtarg"]
        if len(a) != len(t[2]) or any(isinstance(x, str) and x.strip() for x in t[1]):
            a.append("…")           # with words of its own
        elif not any(isinstance(x, str) and x == "\n" for x in t[1][-1:]) :
            a.append("no line end")
        return " ".join(a)
    if t[0] == "mut":
        return r(t[3], names)
    raise Undecided("value " + short(t))


def outputs(P, p, names=None):
    out = []
    for e in p.events:
        n = last(e[0])
        if n not in OUT:
            continue
        if n == "repl":
            out.append(("repl",) + session(P, e[1][0], names))
        else:
            out.append((n,) + tuple(r(a, names) for a in e[1]))
    return tuple(out)


def session(P, f, names):
    """what is done with every line of a session"""
    if f[0] == "fn" or f[0] == "closure" and f[1] in P.fns:
        g = f[1]
        if g == "crate::parse_line":
            return ("parse_line",)
        c = P.fns[g]
        caps = f[2] if f[0] == "closure" else ()
        args = ([("closure", g, caps)] if f[0] == "closure" else []) + [("line",)] + [("arg", i) for i in range(3, c.argc + 1)]
        nm = dict(names or {})
        nm[("line",)] = "line"
        ps = [p for p in flow.Flow(P, inline_pred=lambda x: x.path in HANDLERS).paths(c, args[:c.argc]) if not p.trunc]
        if len(ps) == 1 and not outputs(P, ps[0], nm) and any(e[0] == "crate::parse_line" and e[1] == (("line",),) for e in ps[0].events):
            return ("parse_line",)
        if len(ps) != 1:
            raise Undecided("session on %d paths" % len(ps))
        return outputs(P, ps[0], nm)
    raise Undecided("session by " + short(f))


def fact(p, pred):
    for k, v in p.conds.items():
        if k[0] == "discr" and pred(k[1]):
            return v
    return None


def shown(rep, P):
    f = P.fns["crate::main"]
    und, seen = 0, set()
    W = where(f)
    for p in flow.Flow(P, inline_pred=lambda x: x.path in HANDLERS).paths(f):
        cmd = fact(p, lambda t: t[0] == "fld" and t[3] == "command" or t[0] == "call" and last(t[1]) == "command")
        if p.trunc or not cmd or cmd[0] != "=":
            und += not p.trunc
            continue
        cmd = cmd[1]
        try:
            out = outputs(P, p)
        except Undecided as e:
            rep.notes.append("shown: %s" % e)
            und += 1
            continue
        field = lambda n: fact(p, lambda t: t[0] == "fld" and t[2] == cmd and t[3] == n)
        done = lambda n: fact(p, lambda t: t[0] == "call" and last(t[1]) == n)
        given = {"Parse": field("table"), "Query": ("=", "+"), "Check": ("=", "+")}.get(cmd, field("input"))
        want = None
        T = "table_expanded($table)"
        C = "compile(%s,$direction)" % T
        if cmd == "Check":
            want = [(("check_yaml", "$yaml_files", "$summary"),)]
        elif cmd == "Query":
            if not done("index"):
                want = None
            elif done("index") == ("=", "-"):
                want = "an error"
            elif any(last(e[0]) == "find" for e in p.events):
                if len(out) == 1 and out[0][0] == "_print" and out[0][1].startswith("debug find(index(),"):
                    want = [out]
                else:
                    want = [(("_print", "debug find(index(),…)"),)]
            else:
                want = "an error"
        elif given is None:
            want = None
        elif cmd == "Parse" and given == ("=", "-"):
            want = [(("repl", "parse_line"),)]
        elif done("table_expanded") == ("=", "-"):
            want = [(("print_errors", "error of " + T),)]
        elif done("table_expanded") is None:
            want = None
        elif cmd == "Parse":
            n = sum(1 for k, v in p.conds.items() if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) == "next" and v == ("=", "+"))
            want = [(("_print", "debug each(%s)" % T),) * n]
        elif done("compile") == ("=", "-"):
            want = "an error"
        elif done("compile") == ("=", "+"):
            i = "$input" if given == ("=", "+") else "line"
            w = (("_print", "translate(%s,%s)" % (C, i)),)
            if cmd == "Trace":
                w += (("print_trace", "trace(%s,%s)" % (C, i), "$style"),)
            want = [w if i == "$input" else (("repl",) + w,)]
        if want is None:
            und += 1
            continue
        seen.add(cmd)
        inst = "%s%s" % (cmd, "" if given == ("=", "+") else " in a session")
        if want == "an error":
            good = len(out) >= 1 and all(x[0] in ("_eprint", "print_errors") for x in out)
            rep.check("shown", inst + " that fails", good, W, "a %s that fails shows %s instead of an error" % (inst, list(out)))
        else:
            rep.check("shown", inst, out in want, W, "%s shows %s instead of %s" % (inst, list(out), list(want[0])))
    rep.count("commands followed", len(seen))
    return und + (len(seen) < 5)


def lines(rep, P):
    """a session hands on every line; a line is a rule unless it is empty or a comment"""
    und = 0
    f = P.fns["crate::repl"]
    ok = 0
    for p in flow.Flow(P).paths(f):
        if p.trunc:
            continue
        nexts = [(k[1], v) for k, v in p.conds.items() if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) == "next"]
        for t, v in nexts:
            if v != ("=", "+"):
                continue
            item = ("fld", t, "+", "0")
            res = [v2 for k, v2 in p.conds.items() if k[0] == "discr" and k[1][0] == "fld" and k[1][1] == t]
            if len(res) != 1:
                und += 1
                continue
            calls = [e for e in p.events if last(e[0]) in ("call", "call_mut", "call_once") and any(x == t for a in e[1] for x in flow.walk(a))]
            if res[0] == ("=", "+"):
                rep.check("session", "every line is handled", len(calls) == 1, where(f), "a line of a session is handled %d times" % len(calls))
                ok += 1
    f = P.fns["crate::parse_line"]
    for p in flow.Flow(P).paths(f):
        if p.trunc:
            continue
        c = {(last(k[1]), k[2][1:]): v for k, v in p.conds.items() if k[0] == "call" and k[2] and k[2][0] == ("arg", 1)}
        comment, empty = c.pop(("starts_with", (("char", "#"),)), c.pop(("starts_with", (("str", "#"),)), None)), c.pop(("is_empty", ()), None)
        other = [n for n, _ in c if n in ("contains", "ends_with")]
        if other and not any(v == ("=", 1) for v in (comment, empty)):
            rep.check("session", "every line", False, where(f), "what is done with a line depends on its %s" % other[0])
            continue
        if c or any(any(x == ("arg", 1) for x in flow.walk(k)) and not (k[0] == "call" and k[2][:1] == (("arg", 1),)) and not any(x[0] == "call" and last(x[1]) == "rule" for x in flow.walk(k)) for k in p.conds):
            und += 1
            continue
        try:
            out = outputs(P, p)
        except Undecided:
            und += 1
            continue
        skip = comment == ("=", 1) or empty == ("=", 1)
        res = fact(p, lambda t: t[0] == "call" and last(t[1]) == "rule")
        if skip:
            rep.check("session", "comments and empty lines", not out, where(f), "a comment or an empty line shows %s" % list(out))
        elif comment == ("=", 0) and empty == ("=", 0) and res:
            want = ("_print", "debug rule(new(arg1))") if res == ("=", "+") else ("_eprint", "debug error of rule(new(arg1))")
            rep.check("session", "a rule" if res == ("=", "+") else "an error in a rule", len(out) == 1 and out[0][0] == want[0] and (res == ("=", "-") or out[0] == want), where(f), "a line that is %sa rule shows %s instead of %s" % (
                "" if res == ("=", "+") else "not ", list(out), want))
            ok += 1
        elif res:
            rep.check("session", "only lines that are neither empty nor comments", False, where(f), "a line is parsed although it %s" % ("may be empty" if comment else "may be a comment"))
        else:
            rep.check("session", "every other line", False, where(f), "a line that is neither empty nor a comment may show nothing")
    return und + (ok < 3)


def pairs(rep, P):
    """the pairs of a query are those written"""
    R = Reader(P, maxlen=2)
    R.guide = ("crate::main",)
    R.opaque = ()

    def split(lf, a):
        if a[1] not in (("lit", ","), ("text", ",")) or a[0] != obj("query"):
            return seq_([obj("other part")])
        return seq_(obj("part%d" % i) for i in range(lf.w.ask(("parts",), (1, 2))))

    def other(lf, a):
        return seq_([obj("otherwise split part")])

    def once(lf, a):
        if a[1] not in (("lit", "="), ("text", "=")):
            return obj("otherwise split")
        return ("some", tup(obj(a[0][1] + ".key"), obj(a[0][1] + ".value"))) if lf.w.has(a[0][1]) else NONE
    R.calls = {"Parser::parse": lambda lf, a: ("var", "Cli", (("command", ("var", "Query", (("query", obj("query")),))),)),
               "env_logger::init": lambda lf, a: words.UNIT, "metadata::index": lambda lf, a: ("some", obj("index")), "<impl str>::split": split, "<impl str>::split_once": once, "<impl str>::splitn": other, "<impl str>::rsplit": other,
               "<impl str>::rsplitn": other, "<impl str>::split_terminator": other, "<impl str>::split_inclusive": other,
               "<impl str>::rsplit_once": lambda lf, a: ("some", tup(obj(a[0][1] + ".up to the last"), obj(a[0][1] + ".after the last"))) if lf.w.has(a[0][1]) else NONE,
               "metadata::find": lambda lf, a: obj("found")}

    def want(lf):
        n = lf.w.ask(("parts",), (1, 2))
        ps = ["part%d" % i for i in range(n)]
        return seq_(tup(obj(x + ".key"), obj(x + ".value")) for x in ps) if all([lf.w.has(x) for x in ps]) else "an error"

    def got(lf):
        e = [e for e in lf.path.events if e[0].endswith("metadata::find")]
        if not e:
            return "an error"
        return lf.val(e[0][1][1])
    return check(rep, R, "query", "crate::main", {}, want, "pairs of a query", "a query consists of the pairs written in it", got=got)


def origin(rep, P):
    f = P.fns["crate::Trace::display_origin"]
    n = 0
    for p in flow.Flow(P).paths(f):
        t = p.ret
        v = fact(p, lambda x: x[0] == "fld" and x[3] == "rule")
        if v is None or p.trunc:
            return 1
        if v == ("=", "-"):
            empty = t[0] == "call" and last(t[1]) in ("new", "default") or t[0] == "default" or t == ("str", "") or t[0] == "fmt" and not t[2] and not "".join(x for x in t[1] if isinstance(x, str))
            if not empty and t[0] != "str":
                return 1
            rep.check("rows", "no rule", empty, where(f), "a step that stems from no rule shows %s as its rule" % short(t))
        else:
            if t[0] != "fmt" and not (t[0] == "fld" and t[3] == "rule"):
                return 1
            a = t if t[0] == "fld" else t[2][0][2] if len(t[2]) == 1 else None
            good = a is not None and a[0] == "fld" and a[3] == "rule" and a[1][0] == "fld" and a[1][1][0] == "fld" and a[1][1][3] == "rule"
            rep.check("rows", "the rule", good and (t[0] == "fld" or t[1] in ((0,), ())), where(f), "the rule of a step is shown as %s" % short(t))
        n += 1
    return 0 if n else 1


def run(rep, L, B):
    rep.parts([origin, pairs, shown, lines, query, rows, index], B)


LEVEL = "other"
EXPLANATION = ("Every path of the dispatcher, with the handlers of its commands followed, is read as the values it prints, each by what was computed from which argument, and compared with what the command is for; "
               "the same for what a session does with each line. The metadata index, the look-up in it, the pairs of a query and the rows of a trace are read as decision trees over unnamed directories, files, lines, pairs and steps, "
               "and compared with their specified result in every case.")
ASSUMPTIONS = ["search paths of up to two directories with up to two entries; files of up to two lines; queries of up to three pairs (thorough: four); traces of up to three steps",
               "clap hands on the arguments as written; tabled prints the rows it is given", "what check prints is C16's affair"]
