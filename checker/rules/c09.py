"""C09: every line of a table is a rule, a comment or an error that is reported with its place."""
import flow
import seq
from terms import last, short
from rules.c12 import one, where

EXPLANATION = ("Provenance of the results of the functions that read a table: each line that is neither blank nor a comment goes to the rule parser once, "
               "its rule or its error keeps file and line number, all errors are returned and no rules where there is one. A crate-wide path enumeration follows every "
               "call that can fail: a path on which it has failed must return an error, print it, or be one of the listed places where a failure is an answer.")
LEVEL = "other"
ASSUMPTIONS = ["the error enums of this crate, io::Error and the vectors of them are what can go wrong",
               "a failing lookup in an Option is not an error"]


def is_line(t, elem):
    return t == ("fld", elem, None, "1")


def line_number(t, elem):
    no = ("fld", elem, None, "0")
    return t[0] == "bin" and t[1] in ("Add", "AddWithOverflow", "AddUnchecked") and {t[2], t[3]} == {no, ("const", 1)} or t == ("fld", elem, None, "0+1")


def field(agg, name):
    return agg[4][agg[3].index(name)] if agg[0] == "agg" and name in agg[3] else None


def blank(conds, elem):
    """does a condition say that the line is blank or a comment? 'yes' | 'no' | '?'"""
    known = {}
    other = 0
    solid = False
    for k, x in conds.items():
        t, val = k, (x[1] if x[0] == "=" else None)
        if t[0] == "un" and t[1] == "Not":
            t, val = t[2], (1 - val if val in (0, 1) else None)
        n = last(t[1]) if t[0] == "call" else ""
        if n in ("starts_with", "is_empty") and val is not None:
            b = t[2][0]
            trimmed = b[0] == "call" and last(b[1]) in ("trim", "trim_start", "trim_ascii") and is_line(b[2][0], elem)
            if trimmed and (n == "is_empty" or t[2][1] in (("char", "#"), ("str", "#"))):
                known[n] = val
                continue
            if trimmed and n == "starts_with" and val == 1 and t[2][1][0] in ("char", "str") and t[2][1][1] and t[2][1][1][0] not in ("#", " "):
                solid = True
                continue
        other += 1
    if 1 in known.values():
        return "yes"
    if solid or known.get("starts_with") == 0 and known.get("is_empty") == 0:
        return "no"
    return "?"


def lines(rep, P, _):
    f = one(P, "parser::table")
    W = where(f)
    und = 0
    C = seq.collector(P, f)
    for b in C.bad:
        rep.bad("every line", b, W, b)
    src, steps = C.src, list(C.steps)
    # lines(text).enumerate() with filters that only drop blank lines and comments
    rep.check("every line", "lines of the text", src[0] == "call" and last(src[1]) == "lines" and src[2][0] == ("arg", 1), W, "the lines read are not those of the text given")
    names = [s for s, _ in steps]
    if "enumerate" not in names:
        raise seq.Unknown("lines not numbered")
    for op, args in steps[:names.index("enumerate")]:
        rep.bad("every line", "%s before the lines are numbered" % op, W, "lines are left out or moved before they are numbered, so that line numbers of errors are off")
    for op, args in steps[names.index("enumerate") + 1:]:
        if op in ("rev", "skip", "take", "step_by", "skip_while", "take_while", "map_while"):
            rep.bad("every line", "%s of the lines" % op, W, "not every line is read: " + op)
            continue
        if op not in ("filter",):
            raise seq.Unknown("lines changed by " + op)
        e = ("arg", 2)
        for c, r, _ in seq.apply(P, args[0], [e]):
            alts = [(c, r)] if r[0] == "const" else [({**c, r: ("=", v)}, ("const", v)) for v in (0, 1)]
            for c2, r2 in alts:
                b = blank(c2, e)
                if b == "?":
                    und += r2 == ("const", 0)
                elif r2[1] == 0:
                    rep.check("every line", "only blank lines and comments are passed over", b == "yes", W, "a line that is neither blank nor a comment is passed over")
    kinds = set()
    for c, o, v in C.outcomes:
        kinds.add(o)
        if o == "skip":
            b = blank(c, C.elem)
            if b == "?":
                und += 1
            else:
                rep.check("every line", "only blank lines and comments are passed over", b == "yes", W, "a line that is neither blank nor a comment is passed over")
            continue
        if o == "ok":
            if v[0] == "call" and last(v[1]) == "new":
                r, path, no = v[2]
            elif v[0] == "agg":
                r, path, no = field(v, "rule"), field(v, "path"), field(v, "line")
            else:
                und += 1
                continue
            name = "rule"
        else:
            if v[0] != "agg":
                und += 1
                continue
            if not rep.check("every error", "kind", v[2] == "ParseError", W, "an error in a line is given as %s" % v[2]):
                continue
            r, path, no = field(v, "error"), field(v, "path"), field(v, "line")
            name = "error"
        s = r[1] if r[0] == "fld" else r
        if not (s[0] == "call" and last(s[1]) == "rule" and s[2]):
            und += 1
            continue
        arg = s[2][0]
        ok = arg[0] == "call" and last(arg[1]) == "new" and is_line(arg[2][0], C.elem)
        if not ok and not (arg[0] == "call" and last(arg[1]) == "new"):
            und += 1
        else:
            # trimming changes nothing, tokens are split at white space
            a = arg[2][0]
            while a[0] == "call" and last(a[1]) in ("trim", "trim_end", "trim_start"):
                a = a[2][0]
            rep.check("every " + name, "from its own line", is_line(a, C.elem), W, "the rule is not parsed from the whole line: %s" % short(a))
        rep.check("every " + name, "file", path == ("arg", 2), W, "the file of a line is lost: %s" % short(path))
        if no[0] in ("bin", "const", "fld"):
            rep.check("every " + name, "line number", line_number(no, C.elem), W, "the line number is not that of the line, counted from 1: %s" % short(no))
        else:
            und += 1
    rep.check("every line", "gives a rule or an error", {"ok", "err"} <= kinds, W, "lines never give %s" % ("errors" if "err" not in kinds else "rules"))
    return und


def files(rep, P, _):
    f = one(P, "parser::table_file")
    W = where(f)
    und = 0
    for p in flow.Flow(P).paths(f):
        for c, o, v in seq.results(P, p):
            read = [k for k in c if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) in ("read_to_string", "from_utf8", "read")]
            if not read:
                und += 1
                continue
            failed = any(c[k] == ("=", "-") for k in read)
            if failed:
                rep.check("file", "not readable", o == "err", W, "a file that cannot be read is taken as a table")
                if o == "err":
                    n = [x for x in flow.walk(v) if x[0] == "agg" and x[1].endswith("TableError")]
                    rep.check("file", "error says so", bool(n) and n[0][2] == "TableNotReadable", W, "a file that cannot be read is reported as %s" % (n[0][2] if n else short(v)))
                continue
            t = v[1] if v[0] == "fld" else v
            if not (t[0] == "call" and last(t[1]) == "table"):
                und += 1
                continue
            rep.check("file", "its text is parsed", any(x in list(flow.walk(t[2][0])) for x in [k[1] for k in read]), W, "not the text of the file is parsed")
            rep.check("file", "its name is kept", any(x == ("arg", 1) for x in flow.walk(t[2][1])), W, "the name of the file is not kept for messages")
            rep.check("file", "errors are passed on", (c[("discr", t)] == ("=", "-")) == (o == "err"), W, "errors in a file are dropped")
    return und


# places where a failing call is an answer, not an error
ANSWERS = {
    ("metadata::index", "std::fs::read_to_string"): "files in the table directories that are not text are not tables",
    ("parser::unescape_unicode", "core::num::<impl u16>::from_str_radix"): "the second half of a surrogate pair may be missing",
}
DROP = {"ok", "is_ok", "is_err", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "map_or", "map_or_else", "is_ok_and", "is_err_and", "unwrap_or_else", "or", "or_else", "iter", "into_iter",
        "flatten", "err"}


def error_type(P, tid):
    s = P.tstr(tid).replace("&mut ", "").replace("&", "")
    for pre in ("std::result::Result<", "core::result::Result<"):
        if s.startswith(pre) and s.endswith(">"):
            d, cut = 0, None
            body = s[len(pre):-1]
            for i, ch in enumerate(body):
                d += ch in "<([" and 1 or 0
                d -= ch in ">)]" and 1 or 0
                if ch == "," and d == 0:
                    cut = i
            return body[cut + 1:].strip() if cut is not None else None
    return None


def counts(e):
    if e is None or e == "std::fmt::Error":
        return False
    n = e.split("<")[-1].rstrip(">") if "Vec<" in e else e
    return n.endswith("Error") or "Error" in n


def dropped(P):
    """calls that take a Result and forget its error"""
    for path, f in sorted(P.fns.items()):
        if f.derived or "::tests::" in path:
            continue
        for c in f.calls():
            if last(c.name or "") in DROP and c.args:
                t = f.oty(c.args[0])
                e = error_type(P, t) if t is not None else None
                if counts(e):
                    yield f, c, e


def combinators(rep, L, B):
    """no failure is turned into a default or thrown away"""
    und = 0
    for f, c, e in [x for P in (L, B) for x in dropped(P)]:
        n = last(c.name)
        key = "%s %s" % (f.path.split("crate::")[-1], n)
        if n in ("is_ok", "is_err", "ok") and e in ("usize", "std::num::ParseIntError", "core::num::ParseIntError", "std::char::CharTryFromError"):
            rep.ok("failures", key + " asks for a number")
            continue
        if n in ("is_ok", "is_err"):
            und += 1
            continue
        rep.bad("failures", key, c.loc(), "a failure (%s) is thrown away by %s" % (e, n))
    return und


def mentions_local(x, l):
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == l and not isinstance(x[0], bool) and isinstance(x[1], list):
            return True
        return any(mentions_local(y, l) for y in x)
    if isinstance(x, dict):
        return any(mentions_local(y, l) for y in x.values())
    return False


def looked_at(f, c):
    """is the result of a call used for anything?"""
    l, proj = c.dest
    if l == 0 or proj:
        return True
    for b in f.reachable():
        B = f.blocks[b]
        for s in B["s"]:
            if s[0] == "dead" or s[0] == "live":
                continue
            if s[0] == "=" and (mentions_local(s[2], l) or s[1][0] == l and s[1][1]):
                return True
            if s[0] != "=" and mentions_local(s[1:], l):
                return True
        t = B["t"]
        if t[0] == "call":
            if mentions_local(t[2], l):
                return True
        elif t[0] not in ("drop", "goto", "return", "unreachable") and mentions_local(t[1:], l):
            return True
    return False


def ignored(rep, L, B):
    """no result of a call that can fail is left unused, skipped or flattened away"""
    n = 0
    for P in (L, B):
        for path, f in sorted(P.fns.items()):
            if f.derived or "::tests::" in path or P is B and path in P.lib_paths:
                continue
            for c in f.calls():
                e = error_type(P, f.pty(c.dest)) if c.dest is not None and f.pty(c.dest) is not None else None
                name = last(c.name or "")
                key = "%s: %s" % (path.split("crate::")[-1], name)
                if counts(e):
                    n += 1
                    rep.check("failures", key + " is looked at", looked_at(f, c), c.loc(), "the result of %s, which may be an error (%s), is not looked at" % (name, e))
                if name in ("flatten", "filter_map", "flat_map", "map_while", "scan", "find_map", "partition_map", "take_while") and c.args:
                    over = [g for a in c.args if f.oty(a) is not None for g in P.ty_closures(f.oty(a))] if name == "flatten" else []
                    drop = [g for g in over if g in P.fns and counts(error_type(P, P.fns[g].locals[0][0]))]
                    by = [a for a in c.args[1:] if "fn" in repr(a) and "Result" in repr(a) and "::ok" in repr(a)]
                    if name == "flat_map" or name == "filter_map":
                        by += [a for a in c.args[1:] if f.oty(a) is not None for g in P.ty_closures(f.oty(a)) if g in P.fns and counts(error_type(P, P.fns[g].locals[0][0]))]
                    rep.check("failures", key + " keeps the errors", not drop and not by, c.loc(), "%s drops the errors of the calls it goes over" % name)
    rep.count("results of calls that can fail", n)


def failing(rep, P, crate):
    und = n = 0
    for path, f in sorted(P.fns.items()):
        if f.derived or "::tests::" in path or path not in P.baseline or crate == "bin" and path in P.lib_paths:
            continue
        risky = False
        for c in f.calls():
            tid = f.pty(c.dest) if c.dest is not None else None
            if tid is not None and counts(error_type(P, tid)) and last(c.name or "") not in ("from_residual",):
                risky = True
        if not risky:
            continue
        returns = counts(error_type(P, f.locals[0][0]))
        try:
            paths = list(flow.Flow(P, max_paths=4000).paths(f))
        except Exception:
            rep.count("functions not followed", rep.counts.get("functions not followed", 0) + 1)
            continue
        n += 1
        for p in paths:
            if p.trunc or p.div or not seq.feasible(p.conds):
                continue
            for k, x in p.conds.items():
                if not (k[0] == "discr" and x == ("=", "-") and k[1][0] in ("call", "maperr", "map")):
                    continue
                t = k[1]
                while t[0] in ("maperr", "map"):
                    t = t[1]
                if t[0] != "call":
                    continue
                cs = [c for c in f.calls() if c.name == t[1]]
                e = None
                for c in cs:
                    tid = f.pty(c.dest)
                    e = e or (error_type(P, tid) if tid is not None else None)
                if t[1] in P.fns:
                    e = e or error_type(P, P.fns[t[1]].locals[0][0])
                if not counts(e):
                    continue
                who = (path.split("crate::")[-1].replace("::<'a>", ""), last(t[1]))
                inst = "%s: %s" % who
                if (who[0], t[1]) in ANSWERS:
                    rep.ok("failures", inst + " (an answer)")
                    continue
                r = p.ret
                if r[0] == "agg" and r[2] == "Err" or r[0] == "resid" or r[0] == "maperr":
                    rep.ok("failures", inst)
                    continue
                if crate == "bin":
                    said = [ev for ev in p.events if last(ev[0]) in ("_eprint", "_print", "print_errors") and t in list(flow.walk(ev[1]))]
                    gone = [ev for ev in p.events if last(ev[0]) == "exit"]
                    rep.check("failures", inst, bool(said or gone), where(f), "%s fails and nothing says so" % short(t)[:80])
                    continue
                if r[0] == "call" and r[2]:
                    und += 1
                    continue
                kept = {last(ev[0]) for ev in p.events if ev[1] and any(y == t for a in ev[1][1:] for y in flow.walk(a))}
                if any(c[0] == "call" and last(c[1]) == "is_empty" and v == ("=", 1) and any(x[0] == "mut" and last(x[2]) in kept for x in flow.walk(c[2][0])) for c, v in p.conds.items()):
                    und += 1        # it was put among the errors, and there are none
                    continue
                rep.bad("failures", inst, where(f), "%s fails (%s) and %s goes on as if it had not" % (last(t[1]), e, path))
    rep.count("functions with calls that can fail (%s)" % crate, n)
    return und


def printed(rep, L, P):
    """the program prints each error of a table, with its place"""
    f = one(P, "crate::print_errors")
    W = where(f)
    und = n = 0
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            und += 1
            continue
        nx = [(t, x) for t, x in seq._elements(p, p.conds)]
        if not nx:
            raise seq.Unknown("no loop over the errors")
        its = [t for t, x in nx if x == "+"]
        if nx[-1][1] == "+":
            rep.bad("printed", "all errors", W, "printing stops before the last error")
            continue
        base, ops = seq.stages(seq.loop_base(nx[0][0])[0])
        rep.check("printed", "all errors", base == ("arg", 1) and not [o for o, _ in ops if o not in ("enumerate", "inspect")], W, "not all errors are printed")
        for t in its:
            n += 1
            e = ("fld", t, "Some", "0")
            out = [x for ev in p.events if last(ev[0]) == "_eprint" for x in flow.walk(ev[1]) if x[0] == "fmtarg"]
            if not rep.check("printed", "every error", bool(out), W, "an error is not printed"):
                continue
            d = p.conds.get(("discr", e))
            if d == ("=", "ParseError"):
                for fl in ("line", "error"):
                    want = ("fld", e, "ParseError", fl)
                    whole = any(x[2] == e for x in out)
                    rep.check("printed", "error in a line: " + fl, whole or any(x[2] == want for x in out), W, "the %s of an error in a line is not printed" % fl)
                path = ("fld", e, "ParseError", "path")
                if p.conds.get(("discr", path)) == ("=", "+"):
                    rep.check("printed", "error in a line: path", any(path in list(flow.walk(x)) for x in out), W, "the file of an error in a line is not printed")
            else:
                rep.check("printed", "other error", any(e in list(flow.walk(x)) for x in out), W, "an error is printed without saying which")
    rep.count("kinds of printed errors", n)
    return und


def messages(rep, L, B):
    """the message of an error names what it is about"""
    und = n = 0
    for ty in ("parser::TableError", "parser::ParseError", "translator::TranslationError"):
        fs = [f for p, f in L.fns.items() if p == "crate::<%s as std::fmt::Display>::fmt" % ty]
        if len(fs) != 1:
            und += 1
            continue
        f = fs[0]
        adt = [a for a in L.adts if a == "crate::" + ty or a.endswith(ty)][0]
        fields = {v["name"]: [x[0] for x in v["fields"]] for v in L.adts[adt]["variants"]}
        seen = {}
        for p in flow.Flow(L).paths(f):
            d = p.conds.get(("discr", ("arg", 1)))
            if p.trunc or p.div or not d or d[0] != "=":
                continue
            v = d[1]
            used = {x[3] for ev in p.events for x in flow.walk(ev[1]) if x[0] == "fld" and x[1] == ("arg", 1) and x[2] == v}
            seen[v] = seen.get(v, set()) | used
        for v, fs2 in fields.items():
            if v not in seen:
                und += bool(fs2)
                continue
            for x in fs2:
                n += 1
                if (ty, v, x) in UNSAID:
                    continue
                rep.check("message", "%s::%s names %s" % (ty.split("::")[-1], v, x), x in seen[v], where(f), "the message of %s does not say %s" % (v, x))
    rep.count("fields in messages", n)
    return und


# the causes behind an error, which its message need not repeat
UNSAID = {("parser::TableError", "ParseError", "path"), ("parser::TableError", "TableNotReadable", "0"), ("parser::ParseError", "InvalidBraille", "0"), ("parser::ParseError", "InvalidNumber", "0")}


def library(rep, L, B):
    return failing(rep, L, "lib")


def program(rep, L, B):
    return failing(rep, B, "bin")


def run(rep, L, B):
    rep.parts([lines, files, combinators, ignored, library, program, printed, messages], L, B)
