"""C03: a compiled translator is immutable and carries no hidden state."""
EXPLANATION = ("Type-level argument: every type reachable through the fields of the public translator type is free of interior "
               "mutability, shared ownership with mutation, raw pointers and trait objects; the crate has no mutable, "
               "interior-mutable or thread-local static; every public method that translates takes the translator by shared "
               "reference; with no unsafe code the compiler then rules out any change to it.")
LEVEL = "proof"
ASSUMPTIONS = ["C04 (no unsafe code)", "third-party containers (enumset, smallvec) have no interior mutability"]
BAD = ("cell::", "sync::atomic", "sync::Mutex", "sync::RwLock", "sync::poison", "OnceCell", "OnceLock", "LazyLock", "LazyCell", "rc::",
       "sync::mpsc", "once_cell", "parking_lot", "lazy_static")


def run(rep, L, B):
    roots = [p for p in L.adts if p.endswith("::Translator") and L.adts[p].get("exported")]
    rep.check("anchor", "exported Translator type", len(roots) == 1, "", "exactly one exported Translator type expected")
    if len(roots) != 1:
        return
    a = L.adts[roots[0]]
    seen = set()
    for v in a["variants"]:
        for f in v["fields"]:
            seen |= L.fields_closure(f[1])
    seen.add(a["ty"])
    n = 0
    for t in sorted(seen, key=L.tstr):
        T = L.types[t]
        s = T["s"]
        n += 1
        if T.get("k") == "adt":
            bad = [x for x in BAD if x in T["adt"]]
            if bad:
                rep.bad("interior", s, roots[0], "the translator holds %s, whose content can change behind a shared reference" % s)
                continue
            loc = L.adts.get(T["adt"])
            if loc and not loc.get("freeze", True):
                # the offending leaf is reported as well
                rep.bad("interior", T["adt"], "", "%s is not free of interior mutability" % T["adt"])
                continue
        if T.get("k") in ("dyn", "ptr", "fnptr") and "PhantomData" not in s:
            rep.bad("opaque", s, roots[0], "the translator holds %s, which the type-level argument cannot see through" % s)
            continue
        rep.ok("type", s)
    rep.floor("types reachable from the translator", n, 60)
    # statics
    ns = 0
    for s in L.facts["statics"]:
        ns += 1
        ok = not s.get("mut") and s.get("freeze", True) and not s.get("tls")
        rep.check("static", s["path"], ok, str(s.get("span")), "static %s is mutable global state" % s["path"])
    rep.count("statics", ns)
    for fn in L.fns.values():
        for b, i, s in fn.stmts():
            if s[0] == "=" and s[2][0] == "tls":
                rep.bad("tls", fn.path, "%s:%d" % (s[3][0], s[3][1]), "thread-local state used in %s" % fn.path)
    ext = set()
    for p, c in L.callgraph().items():
        for e in c["ext"]:
            if "thread::LocalKey" in e or "thread_local" in e or "Box::<T>::leak" in e or "Box::leak" in e or "mem::transmute" in e:
                rep.bad("tls", "%s -> %s" % (p, e), p, "%s uses %s" % (p, e))
    # receivers
    nm = 0
    for fn in L.fns.values():
        if fn.raw.get("exported") and fn.raw.get("kind") == "method" and fn.path.startswith(roots[0] + "::"):
            if fn.argc and fn.raw.get("args") and fn.raw["args"][0] == "self":
                nm += 1
                T = L.types[fn.lty(1)]
                shared = T.get("k") == "ref" and not T["s"].startswith("&mut") and "mut " not in T["s"][:12]
                rep.check("receiver", fn.path, shared, "%s:%d" % (fn.file, fn.line),
                          "%s takes the translator as %s" % (fn.path, T["s"]))
    rep.floor("translating methods", nm, 2)
