"""The record a rule's translation is kept in tells what was put in: its accessors, its setters, its constructor."""
import flow
from terms import last, short
from rules.c12 import where

REC = "translator::translation::ResolvedTranslation::"
PLAIN = ("clone", "to_string", "to_owned", "as_str", "as_ref", "into", "from", "borrow", "deref", "cloned", "copied", "as_slice", "to_vec", "as_deref", "String", "new")
ALTER = ("min", "max", "clamp", "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "abs_diff", "pow", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches",
         "trim_end_matches", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "repeat", "is_multiple_of", "div_ceil")


def strip(t):
    while True:
        if t[0] == "call" and len(t[2]) == 1 and (last(t[1]) in PLAIN or last(t[1]) in ("input", "output", "length", "weight", "offset", "stage", "origin", "precedence", "effects") and REC in t[1]):
            if REC in t[1] and last(t[1]) not in PLAIN:
                return ("fld", t[2][0], None, last(t[1]))
            t = t[2][0]
        else:
            return t


def settled(t):
    """a term simple enough to say that it is not the field"""
    t = strip(t)
    if t[0] in ("const", "str", "char", "arg", "bin"):
        return True
    if t[0] == "fld":
        return t[1] == ("arg", 1)
    if t[0] == "agg":
        return not t[4]
    if t[0] == "call":
        return last(t[1]) in ALTER or last(t[1]) in ("new", "default") and not t[2]
    return False


def record(rep, P, names, rule="record"):
    und = 0
    n = 0
    for path, f in sorted(P.fns.items()):
        if REC not in path or "{" in path:
            continue
        name = path.split("::")[-1]
        try:
            ps = [p for p in flow.Flow(P).paths(f) if not p.div]
        except Exception:
            und += 1
            continue
        if any(p.trunc or p.ret is None for p in ps):
            und += 1
            continue
        if name in names:
            if f.argc != 1:
                continue
            n += 1
            rs = [strip(p.ret) for p in ps]
            if all(r == ("fld", ("arg", 1), None, name) for r in rs):
                rep.check(rule, name, True, where(f), "")
            elif any(r[0] == "fld" and r[3] == name for r in rs) or any(name in short(r) for r in rs):
                odd = [r for r in rs if r != ("fld", ("arg", 1), None, name)]
                if all(settled(r) for r in odd):
                    rep.check(rule, name, False, where(f), "the %s of a rule's translation is told as %s" % (name, short(odd[0])[:80]))
                else:
                    und += 1
            elif all(r[0] == "fld" and r[1] == ("arg", 1) or r[0] in ("const", "str") for r in rs):
                rep.check(rule, name, False, where(f), "the %s of a rule's translation is told as %s" % (name, short(rs[0])[:80]))
            else:
                und += 1
        elif name.startswith("with_") and name[5:] in names or name == "decrement_offset" and "offset" in names:
            field = name[5:] if name.startswith("with_") else "offset"
            n += 1
            for p in ps:
                if p.ret[0] != "agg" or field not in p.ret[3]:
                    und += 1
                    continue
                d = dict(zip(p.ret[3], p.ret[4]))
                bad = None
                for k, v in d.items():
                    v = strip(v)
                    if k == field:
                        if name == "decrement_offset":
                            ok = v[0] == "bin" and v[1] in ("Sub", "SubUnchecked") and v[2:4] == (("fld", ("arg", 1), None, field), ("arg", 2)) or \
                                v[0] == "call" and last(v[1]) in ("saturating_sub", "wrapping_sub") and v[2] == (("fld", ("arg", 1), None, field), ("arg", 2))
                            odd = v[0] in ("bin", "const", "arg", "fld") or v[0] == "call" and last(v[1]) in ALTER
                        else:
                            ok, odd = v == ("arg", 2), settled(v)
                    elif field == "input" and k == "length":
                        continue
                    else:
                        ok, odd = v == ("fld", ("arg", 1), None, k), settled(v)
                    if not ok and not odd:
                        und += 1
                    elif not ok:
                        bad = bad or (k, v)
                rep.check(rule, name, bad is None, where(f), "" if bad is None else "%s sets the %s to %s" % (name, bad[0], short(bad[1])[:80]))
        elif name == "new" and "offset" in names:
            n += 1
            for p in ps:
                if p.ret[0] != "agg" or "offset" not in p.ret[3]:
                    und += 1
                    continue
                d = {k: strip(v) for k, v in zip(p.ret[3], p.ret[4])}
                o = d["offset"]
                if o == ("const", 0) or settled(o):
                    rep.check(rule, "offset of a new translation", o == ("const", 0), where(f), "a translation starts with the offset %s" % short(o)[:80])
                else:
                    und += 1
                texts = [k for k in ("input", "output", "weight") if k in d]
                args = [d[k] for k in texts]
                if all(settled(a) for a in args):
                    rep.check(rule, "parts of a new translation", all(a[0] == "arg" for a in args) and len(set(args)) == len(args), where(f), "a new translation is made of %s" % ", ".join(short(a)[:40] for a in args))
                else:
                    und += 1
    return und + (0 if n else 1)


def subset(rep, P, rule="seen"):
    """what tells two rules apart that were applied at one place"""
    fs = [f for n, f in P.fns.items() if "TranslationSubset" in n and n.endswith("::from")]
    if len(fs) != 1:
        return 1
    f = fs[0]
    und = 0
    for p in flow.Flow(P, opaque=tuple(n for n in P.fns if REC in n)).paths(f):
        if p.trunc or p.div or p.ret is None or p.ret[0] != "agg":
            und += 1
            continue
        for k, v in zip(p.ret[3], p.ret[4]):
            v = strip(v)
            if v == ("fld", ("arg", 1), None, k):
                rep.check(rule, "a rule is known again by its " + k, True, where(f), "")
            elif settled(v):
                rep.check(rule, "a rule is known again by its " + k, False, where(f), "of a rule applied before, %s is kept as its %s: another rule would be taken for it" % (short(v)[:60], k))
            else:
                und += 1
    return und
