"""C08: dots and braille cells correspond one to one."""
import flow
EXPLANATION = ("Constant propagation over every branch of the functions that connect dot names, dot sets and cells. Each table the "
               "code encodes (dot letter to dot, dot to bit, virtual-dot set to code plane, character to fallback cell) is read out of "
               "the compiler's intermediate representation entry by entry and compared with the Unicode braille encoding and with the "
               "published North American Braille Computer Code.")
LEVEL = "other"
ASSUMPTIONS = ["EnumSet iterates over exactly its members", "a table entry the dataflow cannot reduce to a constant counts as undecided, not as wrong"]
HEX = "0123456789abcdef"
NABCC = {"0": "356", "1": "2", "2": "23", "3": "25", "4": "256", "5": "26", "6": "235", "7": "2356", "8": "236", "9": "35",
         "a": "1", "b": "12", "c": "14", "d": "145", "e": "15", "f": "124", "\\": "1256", "x": "1346"}
DOT = "crate::parser::braille::BrailleDot"
BASES = (0x2800, 0xF0000)
PROBE = [chr(i) for i in range(0x250)] + ["\u0660", "\u0967", "\uff11", "\uff41", "\u2801", "\U0001d7ce"]


def want_bit(v):
    n = HEX.index(v[3:].lower())
    return 0 if n == 0 else 1 << (n - 1)


def run(rep, L, B):
    P = L
    if DOT not in P.adts:
        c = [a for a in P.adts if a.endswith("::BrailleDot")]
        if len(c) != 1:
            from prog import AnchorError
            raise AnchorError("enum BrailleDot")
        dot = c[0]
    else:
        dot = DOT
    names = [v["name"] for v in P.adts[dot]["variants"]]
    rep.check("dots", "sixteen dots 0-9, A-F", sorted(names) == sorted("Dot" + h.upper() for h in HEX), dot,
              "the dot type has the variants %s" % names)
    cell = dot.replace("BrailleDot", "BrailleChar")
    inl = lambda f: "::braille::" in f.path and not f.derived and "::_::" not in f.path
    fl = flow.Flow(P, inline_pred=inl)
    undecided = 0

    # 1. dot -> bit, for every function that turns a dot into a number
    tabs = 0
    for f in sorted(P.fns.values(), key=lambda f: f.path):
        if "::_::" in f.path or f.derived or f.kind not in ("fn", "method", "closure") or f.argc < 1:
            continue
        ats = [P.types[P.peel(f.lty(i))].get("adt") for i in range(1, f.argc + 1)]
        at = [i for i, a in enumerate(ats) if "crate::" + (a or "").removeprefix("crate::") == dot or a == dot]
        if len(at) != 1 or P.tstr(f.lty(0)) not in ("u32", "u16", "char"):
            continue
        if f.argc - at[0] != 1 or (f.kind != "closure" and f.argc != 1) or (f.kind == "closure" and f.argc != 2):
            continue
        tabs += 1
        for v, ps in fl.by_variant(f, at[0] + 1, dot).items():
            vals = {p.ret for p in ps}
            if len(vals) == 1 and next(iter(vals))[0] == "const":
                got = next(iter(vals))[1] & 0xFFFF
                rep.check("bit", "%s(%s)" % (f.path, v), got == want_bit(v), "%s:%d" % (f.file, f.line),
                          "%s maps %s to 0x%04x, the Unicode encoding needs 0x%04x" % (f.path, v, got, want_bit(v)))
            else:
                undecided += 1
    rep.floor("dot-to-bit tables", tabs, 1)

    # 2. character -> dot
    tabs = 0
    domain = None
    for f in P.fns.values():
        if f.argc != 1 or "TryFrom<char>" not in f.path or "BrailleDot" not in f.path:
            continue
        tabs += 1
        got = {}
        for ch in HEX + "AFgG/:`@ x-\u0660\u2801":
            rs = [p.ret for p in fl.paths(f, [("char", ch)]) if not p.trunc]
            if len(rs) == 1 and rs[0][0] == "agg":
                got[ch] = rs[0][4][0][2] if rs[0][2] == "Ok" and rs[0][4][0][0] == "agg" else (None if rs[0][2] == "Err" else "?")
            elif len({r[0] == "agg" and r[2] for r in rs}) == 1 and rs and rs[0][0] == "agg" and rs[0][2] == "Err":
                got[ch] = None
            else:
                got[ch] = "?"
        for ch, g in got.items():
            if g == "?":
                undecided += 1
                continue
            w = "Dot" + ch.upper() if ch in HEX else None
            rep.check("name", "dot name %r" % ch, g == w, "%s:%d" % (f.file, f.line),
                      "the dot name %r is read as %s instead of %s" % (ch, g, w or "an error"))
        # any other literal the code compares the character with
        for p in fl.paths(f):
            c = p.conds.get(("arg", 1))
            if c and c[0] == "=" and p.ret[0] == "agg":
                ok = p.ret[2] == "Err" if c[1] not in HEX else p.ret[2] == "Ok" and p.ret[4][0][0] == "agg" and p.ret[4][0][2] == "Dot" + c[1].upper()
                rep.check("name", "dot name %r (explicit)" % c[1], ok, "%s:%d" % (f.file, f.line),
                          "the character %r is not read as the dot of that name" % c[1])
            elif (c is None or c[0] == "!=") and p.ret[0] == "agg" and not p.events and len(p.conds) <= 1:
                rep.check("name", "other characters", p.ret[2] == "Err", "%s:%d" % (f.file, f.line), "a character that names no dot is accepted")
    rep.floor("dot-name tables", tabs, 1)

    # 3. the scanner accepts exactly the dot names
    tabs = 0
    for f in P.fns.values():
        if not f.path.endswith("::is_braille_dot") or f.argc != 1:
            continue
        tabs += 1
        for ch in PROBE:
            rs = {p.ret for p in fl.paths(f, [("char", ch)]) if not p.trunc}
            if len(rs) == 1 and next(iter(rs))[0] == "const":
                rep.check("scan", "is_braille_dot(%r)" % ch, bool(next(iter(rs))[1]) == (ch in HEX), "%s:%d" % (f.file, f.line),
                          "%s(%r) disagrees with the dot names" % (f.path, ch))
            else:
                undecided += 1
    rep.count("dot scanners", tabs)

    # 4. dot set -> cell: code plane and combination
    cone = None
    for f in P.fns.values():
        if P.tstr(f.ret_ty()) == "char" and f.argc == 1 and P.types[P.peel(f.lty(1))].get("adt") in (cell, cell.removeprefix("crate::")) and f.kind != "closure":
            cone = f
            loc = "%s:%d" % (f.file, f.line)
            seen = set()
            for p in fl.paths(f):
                ks = {t[1] for t in flow.walk(p.ret) if t[0] == "const" and isinstance(t[1], int) and t[1] > 0xFF and t[1] not in (0x4000,)}
                bases = ks & set(BASES)
                other = {k for k in ks if k >= 0x2000 and k not in BASES}
                rep.check("plane", "%s code plane" % f.path, not other, loc, "cells are built from the code points %s" % sorted(map(hex, other)))
                if len(bases) != 1:
                    undecided += 1
                    continue
                base = bases.pop()
                seen.add(base)
                virt = polarity(p.conds)
                if virt is None:
                    undecided += 1
                else:
                    rep.check("plane", "%s base 0x%x" % (f.path, base), virt == (base == 0xF0000), loc,
                              "dot sets %s virtual dots are placed at 0x%x" % ("with" if virt else "without", base))
            # the set literal that decides it
            for p in fl.paths(f):
                for t in list(p.conds) + [p.ret] + [e[1] for e in p.events]:
                    for s in flow.walk(t):
                        if s and s[0] == "set" and len(s) == 3 and isinstance(s[1], frozenset) and any(x in names[9:] for x in s[1]) and not s[2]:
                            rep.check("plane", "%s virtual dots" % f.path, set(s[1]) == {"Dot9", "DotA", "DotB", "DotC", "DotD", "DotE", "DotF"}, loc,
                                      "the virtual dots are taken to be %s" % sorted(s[1]))
            # the operator that joins the bits
            for c in sorted(P.fns):
                if c.startswith(f.path + "::{closure") and P.fns[c].argc == 3:
                    for p in fl.paths(P.fns[c]):
                        if p.ret[0] == "bin" and {p.ret[2], p.ret[3]} == {("arg", 2), ("arg", 3)}:
                            rep.check("join", "%s joins the bits" % f.path, p.ret[1] in ("BitOr", "Add", "BitXor"), loc, "bits are joined with %s" % p.ret[1])
    rep.check("anchor", "function from a cell to a character", cone is not None, "", "no function from BrailleChar to char")

    # 5. the empty group of dots is an error, not a blank cell
    n = 0
    for f in P.fns.values():
        if "TryFrom<&str>" in f.path and "BrailleChar " in f.path.replace("BrailleChar as", "BrailleChar  as"):
            for p in fl.paths(f):
                for c, v in p.conds.items():
                    if c[0] == "call" and c[1].endswith("::is_empty") and c[2] == (("arg", 1),):
                        n += 1
                        if v == ("=", 1):
                            rep.check("empty", "empty group of dots", p.ret[0] == "agg" and p.ret[2] == "Err", "%s:%d" % (f.file, f.line), "an empty group of dots is accepted")
                        break
    rep.count("empty-group guards", n)

    # 6. the fallback cells
    fb = [f for f in P.fns.values() if f.path.endswith("::fallback") and f.argc == 1 and P.tstr(f.lty(1)) == "char" and P.tstr(f.lty(0)) == "char"]
    got = {}
    dyn = False
    for f in fb:
        loc = "%s:%d" % (f.file, f.line)
        for p in fl.paths(f):
            for t in [e[1] for e in p.events] + [p.ret]:
                for s in flow.walk(t):
                    if s and s[0] == "tuple" and len(s[1]) == 2 and s[1][0][0] == "char":
                        d = dots(s[1][1])
                        if d is None:
                            dyn = True
                        else:
                            got.setdefault(s[1][0][1], set()).add(d)
            c = p.conds.get(("arg", 1))
            if c and c[0] == "=":
                d = dots(p.ret)
                if d is None:
                    dyn = True
                else:
                    got.setdefault(c[1], set()).add(d)
        for ch, w in sorted(NABCC.items()):
            if ch not in got:
                if dyn:
                    undecided += 1
                else:
                    rep.bad("fallback", "cell for %r" % ch, loc, "there is no fallback cell for %r, which escapes of undefined characters need" % ch)
                continue
            rep.check("fallback", "cell for %r" % ch, got[ch] == {frozenset(w)}, loc, "the fallback cell for %r is dots %s, NABCC has %s" % (
                ch, "/".join("".join(sorted(d)) for d in got[ch]), w))
    rep.count("fallback cells", len(got))
    rep.count("undecided entries", undecided)


def dots(t):
    """the one literal dot set inside t"""
    found = set()
    for s in flow.walk(t):
        if s and s[0] == "set" and len(s) == 3 and isinstance(s[1], frozenset):
            if s[2]:
                return None
            found.add(frozenset(x[3:].lower() for x in s[1]))
    return found.pop() if len(found) == 1 else None


def polarity(conds):
    """do the conditions say that virtual dots are present?"""
    for c, v in conds.items():
        if v[0] != "=" or not isinstance(v[1], int):
            continue
        neg, t = False, c
        while t[0] == "un" and t[1] == "Not":
            neg, t = not neg, t[2]
        if t[0] == "call":
            m = t[1].split("::")[-1]
            if m in ("is_empty", "is_disjoint"):
                return bool(v[1]) == neg
            if m == "any":
                return bool(v[1]) != neg
    return None
