"""C04: no unsafe code of our own."""
EXPLANATION = ("Every item of both crates (library and command line tool) is visited after macro expansion; unsafe blocks, "
               "unsafe functions, unsafe impls, extern blocks, exported symbols, inline assembly, raw-pointer dereferences and "
               "calls to unsafe functions are forbidden. The only accepted items are those the enumset derive expands to.")
LEVEL = "other"
ASSUMPTIONS = ["the standard library and the third-party crates expose sound safe interfaces"]
# expansions of the standard library's own format and derive macros, and of the enumset derive; an unsafe
# block written as a macro argument keeps the user's span and is not covered by this
DERIVES = ("#[derive(", "desugaring of format string literal", "desugaring of expression that expanded into a format")


def run(rep, L, B):
    total = 0
    for P in (L, B):
        derive = 0
        for what, sp in P.facts["flags"]:
            macros = sp[2] if len(sp) > 2 else []
            if macros and macros[0].startswith(DERIVES):
                derive += 1
                rep.ok("derive", "%s in %s" % (what, sp[0]))
                continue
            rep.bad("unsafe", "%s:%s in %s" % (P.crate, what, sp[0]), "%s:%s" % (sp[0], sp[1]), "%s in %s" % (what, sp[0]))
        rep.floor("enumset derive items in %s" % P.crate + ("(bin)" if P.is_bin else ""), derive, 1)
        for fn in P.fns.values():
            total += 1
            good = True
            if fn.raw.get("unsafe"):
                if (fn.raw["span"][2:] or [[""]])[0][0].startswith(DERIVES):
                    continue
                rep.bad("unsafe", "fn " + fn.path, "%s:%d" % (fn.file, fn.line), "unsafe function %s" % fn.path)
                good = False
            for b, i, s in fn.stmts():
                if s[0] == "=" and s[2][0] == "rawptr":
                    m = s[3][2] if len(s[3]) > 2 else []
                    t = fn.pty(s[2][1])
                    # `for` over arrays and format macros never take raw pointers; len checks on slices may
                    if m or t is not None and P.types[t].get("k") == "slice" or P.tstr(t).startswith("["):
                        continue
                    rep.bad("rawptr", fn.path, "%s:%d" % (s[3][0], s[3][1]), "raw pointer taken in %s" % fn.path)
                    good = False
            if good:
                rep.ok("safe-fn", fn.path)
    rep.floor("functions", total, 2000)
