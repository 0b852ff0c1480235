"""C05: translation and in-memory compilation have no outside effects; compiling files only reads."""
EXPLANATION = ("Whole-program call graph (resolved callees, closures, trait impls, drop glue), pruned by a variant-liveness "
               "analysis: a match arm for an enum variant that no reachable code constructs is dead. From every translating "
               "entry point and from the in-memory compile entry point no call of the standard library's file, environment, "
               "process, network, clock, thread or terminal functions may be reachable; from the file compile entry point only "
               "reading calls may be.")
LEVEL = "other"
ASSUMPTIONS = ["log messages handed to the application's logger do not count as an effect",
               "third-party crates reached are enumset, smallvec, thiserror, log (and search_path for file lookup)"]
READ_ONLY = ("std::fs::read_to_string", "std::fs::read", "std::fs::metadata", "std::fs::File::open", "std::fs::canonicalize",
             "std::fs::exists", "std::fs::symlink_metadata", "std::fs::read_link", "std::fs::read_dir")
PATH_FS = ("canonicalize", "exists", "try_exists", "is_file", "is_dir", "is_symlink", "metadata", "symlink_metadata", "read_dir", "read_link")
EFFECT = ("std::fs::", "std::env::", "std::process::", "std::net::", "std::time::Instant", "std::time::SystemTime", "std::thread::",
          "std::io::_print", "std::io::_eprint", "std::io::stdin", "std::io::stdout", "std::io::stderr", "std::io::Stdin",
          "std::io::Stdout", "std::io::Stderr", "std::os::", "search_path::", "std::panic::", "rayon", "std::io::copy")
FMT_EFFECT = ("libc::", "rand::", "tokio::", "chrono::", "hyphenation_commons")
KNOWN_CRATES = ("std", "core", "alloc", "enumset", "smallvec", "thiserror", "log", "search_path", "clap", "serde", "nom", "unicode", "enumset_derive")


def effect(e):
    e = e.lstrip("<&")
    if e.startswith(("std::path::Path::", "std::path::PathBuf::")) and e.split("::")[-1] in PATH_FS:
        return "file"
    for p in EFFECT + FMT_EFFECT:
        if e.startswith(p) or (" as " + p) in e:
            if p == "std::thread::" and ("LocalKey" in e):
                return "thread"
            return p
    return None


def is_read(e):
    e = e.lstrip("<&")
    return e in READ_ONLY or e.startswith(("search_path::SearchPath::", "std::fs::File as std::io::Read", "std::path::")) or "std::io::Read" in e


def run(rep, L, B):
    live, blocks, lv = L.api_rta()
    for name, roots, mode in (("translate", L.translate_roots(), "none"),
                              ("compile from memory", [L.api("from_table_source")], "none"),
                              ("compile from files", [L.api("new")], "read")):
        if mode == "read":
            lf, bl, _ = L.rta(roots)
        elif name == "translate":
            lf, bl, _ = L.rta(roots, lv)
        else:
            lf, bl, _ = L.rta(roots)
        sites = 0
        for f in sorted(lf):
            if f not in L.fns:
                continue
            for e in sorted(L.fns[f].callees(bl[f])["ext"]):
                sites += 1
                k = effect(e)
                if k is None or (mode == "read" and is_read(e)):
                    rep.ok("effect", "%s: %s -> %s" % (name, f, e))
                    continue
                rep.bad("effect", "%s: %s -> %s" % (name, f, e), "%s:%d, path %s" % (L.fns[f].file, L.fns[f].line, " -> ".join(L.chain(lf, f))),
                        "%s reaches %s" % (name, e))
        rep.floor("functions reachable from " + name, len(lf), 300)
        rep.floor("external calls checked for " + name, sites, 300)
    # the rule must be able to fire: the file compile entry point does read files
    lf, bl, _ = L.rta([L.api("new")])
    rd = [e for f in lf if f in L.fns for e in L.fns[f].callees(bl[f])["ext"] if effect(e)]
    rep.floor("effects seen from the file compile entry point (positive control)", len(rd), 2)
