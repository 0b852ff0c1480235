"""Path-splitting provenance dataflow over MIR.

Values are provenance terms (constants, arguments, fields of terms, aggregates, results of named calls).  The analysis
splits only on finite discriminants and on comparisons with constants, follows calls into helper functions that are not part
of the recorded baseline (so that an extracted helper changes nothing), and reports for every path: which discriminants and
comparisons were taken, which calls were made in which order with which provenance, and the provenance of the result.
"""
import re, sys

sys.setrecursionlimit(50000)

STD_ENUMS = {
    "std::option::Option": ["None", "Some"],
    "std::result::Result": ["Ok", "Err"],
    "std::ops::ControlFlow": ["Continue", "Break"],
    "std::cmp::Ordering": {255: "Less", -1: "Less", 0: "Equal", 1: "Greater"},
    "std::borrow::Cow": ["Borrowed", "Owned"],
}
# calls that hand on the value of their first argument unchanged
IDENT = re.compile(
    r"(?:Clone>?::clone|Clone>?::clone_from|Deref>?::deref|DerefMut>?::deref_mut|AsRef<.*>>?::as_ref|::as_ref|::as_mut|Borrow<.*>>?::borrow|"
    r"::as_str|::as_slice|::as_path|::to_owned|ToOwned>?::to_owned|ToString>?::to_string|::into_boxed_str|String::from|"
    r"as std::convert::Into<U>>::into|std::convert::Into::into|Box::<T>::new|boxed::Box::<.*>::new|::cloned|::copied|as std::convert::From<T>>::from|"
    r"String as std::convert::From<.*>>::from|PathBuf as std::convert::From<.*>>::from|::to_path_buf|::as_deref|::to_string|::to_vec|::into_string|ptr::Unique|NonNull|"
    r"as std::iter::IntoIterator>::into_iter|Rc::<.*>::new|Arc::<.*>::new|std::hint::must_use|std::mem::ManuallyDrop|::as_bytes|fmt::format|std::alloc::)")


def last(n):
    n = re.sub(r"<[^<>]*>", "", n)
    return n.split("::")[-1]


class St:
    __slots__ = ("mem", "conds", "events", "visits", "uid", "trunc", "stop")

    def __init__(self):
        self.mem, self.conds, self.events, self.visits, self.uid, self.trunc, self.stop = {}, {}, [], {}, 0, False, False

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.conds = dict(self.conds)
        s.events = list(self.events)
        s.visits = dict(self.visits)
        s.uid = self.uid
        s.trunc = self.trunc
        s.stop = self.stop
        return s


class Path:
    __slots__ = ("conds", "events", "ret", "trunc", "mem", "div", "stop")

    def __init__(self, st, ret, div=False):
        self.stop = st.stop
        self.conds, self.events, self.ret, self.trunc, self.mem, self.div = st.conds, st.events, ret, st.trunc, st.mem, div

    def cond(self, term):
        return self.conds.get(term)


class Flow:
    def __init__(self, P, inline=(), opaque=(), max_paths=20000, loop_bound=1, inline_pred=None, prune=None, stop=None):
        self.P = P
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.max_paths = max_paths
        self.loop_bound = loop_bound
        self.inline_pred = inline_pred
        self.prune = prune          # prune(key, variant, state) -> drop this alternative
        self.probe = None           # probe(event, state) is told of every event and of what is checked at run time
        self.stop = stop            # stop(event, state) -> end the path here
        self.n = 0
        self.fid = 0
        self.inlined = set()

    # ---- API
    def paths(self, fn, args=None):
        st = St()
        if args is None:
            args = [("arg", i) for i in range(1, fn.argc + 1)]
        self.n = 0
        out = []
        for s, r, div in self.exec_fn(fn, args, st, 0):
            out.append(Path(s, r, div))
            self.n += 1
            if self.n > self.max_paths:
                raise FlowLimit("more than %d paths in %s" % (self.max_paths, fn.path))
        return out

    def by_variant(self, fn, i, adt):
        """the results of fn when argument i is each plain variant of the enum"""
        out = {}
        for v in self.P.adts[adt]["variants"]:
            args = [("arg", k) for k in range(1, fn.argc + 1)]
            args[i - 1] = ("agg", adt, v["name"], (), ())
            out[v["name"]] = [p for p in self.paths(fn, args) if not p.trunc]
        return out

    def should_inline(self, name, depth):
        if depth > 12 or name in self.opaque:
            return False
        f = self.P.fns.get(name)
        if f is None:
            return False
        if name in self.inline:
            return True
        if self.inline_pred and self.inline_pred(f):
            return True
        return name not in self.P.baseline and f.kind in ("fn", "method", "closure")

    # ---- execution
    def beyond(self, fn):
        """a path goes round more often than it is followed"""

    def exec_fn(self, fn, args, st, depth):
        self.fid += 1
        fid = self.fid
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
        yield from self.block(fn, fid, 0, st, depth)

    def block(self, fn, fid, b, st, depth):
        P = self.P
        while True:
            k = (fid, b)
            v = st.visits.get(k, 0)
            if v > self.loop_bound:
                st.trunc = True
                self.beyond(fn)
                return
            st.visits[k] = v + 1
            B = fn.blocks[b]
            for s in B["s"]:
                self.stmt(fn, fid, s, st)
            t = B["t"]
            kind = t[0]
            if kind == "goto":
                b = t[1]
            elif kind == "drop":
                b = t[2]
            elif kind == "assert":
                if self.probe:
                    self.probe(("assert:" + t[3], tuple(self.operand(fn, fid, o, st) for o in t[4]), 0, "%s:%d" % (t[6][0], t[6][1])), st)
                b = t[5]
            elif kind == "return":
                r = self.read(fn, fid, [0, []], st)
                yield st, r, False
                return
            elif kind == "switch":
                alts = self.split(fn, fid, t, st)
                if len(alts) == 1:
                    b, st = alts[0]
                    continue
                for nb, ns in alts:
                    yield from self.block(fn, fid, nb, ns, depth)
                return
            elif kind == "call":
                res = self.call(fn, fid, b, t, st, depth)
                if isinstance(res, list):
                    if res and res[0][0].stop:
                        yield res[0][0], ("stopped",), False
                        return
                    for ns, val in res:
                        if t[4] < 0:
                            continue
                        self.write(fn, fid, t[3], val, ns)
                    if t[4] < 0:
                        for ns, val in res:
                            yield ns, ("never",), True
                        return
                    if len(res) == 1:
                        st = res[0][0]
                        b = t[4]
                        continue
                    for ns, val in res:
                        yield from self.block(fn, fid, t[4], ns, depth)
                    return
                else:                         # inlined callee: generator
                    for ns, val, div in res:
                        if ns.stop:
                            yield ns, ("stopped",), False
                            continue
                        if div or t[4] < 0:
                            yield ns, ("never",), True
                            continue
                        self.write(fn, fid, t[3], val, ns)
                        yield from self.block(fn, fid, t[4], ns, depth)
                    return
            else:
                return

    # ---- memory
    def read(self, fn, fid, place, st):
        v = st.mem.get((fid, place[0]))
        if v is None:
            v = ("undef", fid, place[0])
        for e in place[1]:
            v = self.project(fn, fid, v, e, st)
        return v

    def project(self, fn, fid, v, e, st):
        v = self.load(v, st)
        if e[0] == "*":
            return st.mem.get(v, v) if v[0] == "heap" else v
        if e[0] == "d":
            return ("as", v, e[2] or str(e[1])) if v[0] not in ("agg",) else v
        if e[0] == "f":
            return self.field(v, e, st)
        if e[0] == "i":
            idx = st.mem.get((fid, e[1]), ("undef", fid, e[1]))
            return index(v, idx)
        if e[0] == "ci":
            if e[3]:
                return ("index", v, ("fromend", e[1]))
            return index(v, ("const", e[1]))
        if e[0] == "ss":
            return ("subslice", v, e[1], e[2])
        return ("proj", v, str(e))

    def load(self, v, st):
        n = 0
        while v[0] == "mref" and n < 50:
            base = st.mem.get((v[1], v[2]), ("undef", v[1], v[2]))
            for e in v[3]:
                base = self.project_t(base, e, st)
            v = base
            n += 1
        return v

    def project_t(self, v, e, st):
        # e is a frozen projection element
        v = self.load(v, st)
        if e[0] == "*":
            return v
        if e[0] == "d":
            return ("as", v, e[2]) if v[0] != "agg" else v
        if e[0] == "f":
            return self.field(v, e, st)
        if e[0] == "it":
            return index(v, e[1])
        return ("proj", v, str(e))

    def field(self, v, e, st):
        i, name, owner = e[1], e[2], e[3]
        if owner.startswith(("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "alloc::boxed::Box")):
            return v
        var = None
        base = v
        if v[0] == "as":
            var, base = v[2], v[1]
        return fld(base, var, name if name else str(i), i)

    def write(self, fn, fid, place, val, st):
        l, proj = place
        if not proj:
            st.mem[(fid, l)] = val
            return
        # writing through a mutable reference
        base = st.mem.get((fid, l), ("undef", fid, l))
        self._write_into(fn, fid, l, list(proj), val, st)

    def _write_into(self, fn, fid, l, proj, val, st):
        cur = st.mem.get((fid, l), ("undef", fid, l))
        pre = []
        v = cur
        for n, e in enumerate(proj):
            if e[0] == "*" and v[0] == "heap":
                st.mem[v] = val
                return
            if e[0] == "*" and v[0] == "mref":
                f2, l2, p2 = v[1], v[2], v[3]
                rest = [self.freeze(fid, x, st) for x in proj[n + 1:]]
                self._upd(f2, l2, tuple(p2) + tuple(rest), val, st)
                return
            v = self.project(fn, fid, v, e, st)
        org = cur
        while org[0] == "upd":
            org = org[1]
        if proj and proj[0][0] == "*" and org[0] in ("call", "fld", "arg", "okor", "index", "it"):
            st.uid += 1
            st.events.append(("store", (v, val), st.uid, "%s:%d" % (fn.file, fn.line)))
        self._upd(fid, l, tuple(self.freeze(fid, x, st) for x in proj), val, st)

    def freeze(self, fid, e, st):
        if e[0] == "i":
            return ("it", st.mem.get((fid, e[1]), ("undef", fid, e[1])))
        return tuple(tuple(x) if isinstance(x, list) else x for x in e)

    def _upd(self, fid, l, proj, val, st):
        cur = st.mem.get((fid, l), ("undef", fid, l))
        if not proj:
            if cur[0] == "mref":
                self._upd(cur[1], cur[2], cur[3], val, st)
                return
            st.mem[(fid, l)] = val
            return
        if cur[0] == "mref":
            self._upd(cur[1], cur[2], tuple(cur[3]) + tuple(proj), val, st)
            return
        st.mem[(fid, l)] = upd(cur, proj, val)

    # ---- statements
    def stmt(self, fn, fid, s, st):
        if s[0] == "=":
            self.write(fn, fid, s[1], self.rvalue(fn, fid, s[1], s[2], st), st)
        elif s[0] == "setd":
            pass

    def operand(self, fn, fid, o, st):
        if "p" in o:
            return self.read(fn, fid, o["p"], st)
        return self.const(fn, o)

    def const(self, fn, o):
        P = self.P
        T = P.types[o["c"]] if "c" in o else {}
        if T.get("k") == "fndef" or "fn" in o:
            return ("fn", o.get("res") or o.get("fn"))
        if "ch" in o:
            return ("char", o["ch"])
        if "str" in o:
            return ("str", o["str"])
        if T.get("k") == "char" and "v" in o:
            return ("char", chr(o["v"]))
        if "v" in o:
            if T.get("k") == "adt":
                vn = self.variant_name(o["c"], o["v"])
                if vn is not None:
                    return ("agg", T["adt"], vn, (), ())
                ds = self.decode_set(o["c"], o["v"])
                if ds is not None:
                    return ds
            return ("const", o["v"])
        if "promoted" in o:
            r = self.promoted(fn, o)
            if r is not None:
                return r
        if "constdef" in o:
            f = P.fns.get(o["constdef"])
            if f is not None:
                for _, r, _ in self.exec_fn(f, [], St(), 0):
                    return r
            return ("constdef", o["constdef"])
        if "mem" in o:
            return ("mem", tuple(o["mem"]))
        return ("k", T.get("s", "?"))

    def decode_set(self, tid, v):
        """a constant EnumSet, or a struct that wraps one"""
        T = self.P.types[tid]
        if T.get("k") != "adt":
            return None
        if T["adt"].endswith("enumset::EnumSet") or T["adt"] == "enumset::EnumSet":
            e = self.P.adts.get(self.P.types[T["args"][0]].get("adt"))
            if e is None:
                return None
            return ("set", frozenset(x["name"] for x in e["variants"] if v >> x["discr"] & 1), ())
        d = self.P.adts.get(T["adt"])
        if d and d["kind"] == "struct" and len(d["variants"][0]["fields"]) == 1:
            f = d["variants"][0]["fields"][0]
            r = self.decode_set(f[1], v)
            if r is not None:
                return ("agg", T["adt"], d["variants"][0]["name"], (f[0],), (r,))
        return None

    def promoted(self, fn, o):
        P = self.P
        owner = P.fns.get(o.get("pof") or "") or fn
        pr = owner.raw.get("promoted", ())
        if o["promoted"] < len(pr):
            from prog import Fn
            raw = {"path": owner.path + "::promoted", "kind": "const", "body": pr[o["promoted"]], "span": owner.raw["span"],
                   "promoted": ()}
            f = Fn(P, raw["path"], raw)
            for _, r, _ in self.exec_fn(f, [], St(), 0):
                return r
        return None

    def variant_name(self, tid, v):
        T = self.P.types[tid]
        a = T.get("adt")
        if a in STD_ENUMS:
            e = STD_ENUMS[a]
            try:
                return e[v]
            except (IndexError, KeyError):
                return None
        d = self.P.adts.get(a)
        if d and d["kind"] == "enum":
            for x in d["variants"]:
                if x["discr"] == v:
                    return x["name"]
        return None

    def enum_of(self, fn, place):
        t = fn.pty(place)
        return t

    def rvalue(self, fn, fid, dst, rv, st):
        k = rv[0]
        if k == "use":
            return self.operand(fn, fid, rv[1], st)
        if k == "ref":
            if rv[1]:
                l, proj = rv[2]
                base = st.mem.get((fid, l))
                # reborrow of a mutable reference
                if proj and proj[0][0] == "*" and base is not None and base[0] == "mref":
                    rest = tuple(self.freeze(fid, x, st) for x in proj[1:])
                    return ("mref", base[1], base[2], tuple(base[3]) + rest)
                if base is not None and base[0] in ("arg", "fld", "call", "index", "as") and proj and proj[0][0] == "*":
                    return self.read(fn, fid, rv[2], st)
                return ("mref", fid, l, tuple(self.freeze(fid, x, st) for x in proj))
            return self.load(self.read(fn, fid, rv[2], st), st)
        if k == "discr":
            v = self.load(self.read(fn, fid, rv[1], st), st)
            return ("discr", v, fn.pty(rv[1]))
        if k == "cast":
            v = self.operand(fn, fid, rv[2], st)
            if "Transmute" in rv[1] or "PtrToPtr" in rv[1] or "Pointer" in rv[1]:
                return v
            if v[0] in ("const",):
                return v
            if v[0] == "char":
                return ("const", ord(v[1]))
            if v[0] == "discr" and v[1][0] == "agg":
                d = self.P.adts.get(v[1][1])
                for x in (d or {}).get("variants", ()):
                    if x["name"] == v[1][2]:
                        return ("const", x["discr"])
                return ("discrv", v[1][2])
            return ("cast", self.P.tstr(rv[3]), v)
        if k == "bin":
            a, b = self.operand(fn, fid, rv[2], st), self.operand(fn, fid, rv[3], st)
            return binop(rv[1], self.load(a, st), self.load(b, st))
        if k == "un":
            a = self.load(self.operand(fn, fid, rv[2], st), st)
            if rv[1] == "Not" and a[0] == "const":
                return ("const", 1 - a[1])
            return ("un", rv[1], a)
        if k == "agg":
            ops = tuple(self.operand(fn, fid, o, st) for o in rv[2])
            a = rv[1]
            if a[0] == "adt":
                return ("agg", a[1], a[3], tuple(a[4]), ops)
            if a[0] == "closure":
                return ("closure", a[1], ops)
            return (a[0], ops)
        if k == "repeat":
            return ("repeat", self.operand(fn, fid, rv[1], st), rv[2])
        return ("rv", k)

    # ---- branching
    def split(self, fn, fid, t, st):
        v = self.load(self.operand(fn, fid, t[1], st), st)
        arms, other = t[2], t[3]
        tyid = None
        if v[0] == "const":
            for x, b in arms:
                if x == v[1]:
                    return [(b, st)]
            return [(other, st)]
        if v[0] == "char":
            for x, b in arms:
                if x == ord(v[1]):
                    return [(b, st)]
            return [(other, st)]
        if v[0] == "discr":
            return self.split_discr(fn, v, arms, other, st)
        if v[0] == "isv":
            res = []
            for val, ns in self.split_var(v[1], v[2], v[3], st):
                want = 1 if val else 0
                b = next((b for x, b in arms if x == want), other)
                res.append((b, ns))
            return res
        neg = False
        while v[0] == "un" and v[1] == "Not":
            v = v[2]
            neg = not neg
        v = self.as_variant_test(v)
        if v[0] == "isv":
            res = []
            for val, ns in self.split_var(v[1], v[2], v[3], st):
                want = (1 if val else 0) ^ neg
                b = next((b for x, b in arms if x == want), other)
                res.append((b, ns))
            return res
        if v[0] == "const":
            x0 = v[1] ^ neg
            return [(next((b for x, b in arms if x == x0), other), st)]
        known = st.conds.get(v)
        tb = self.is_bool(fn, t[1])
        out = []
        if tb:
            for val in (0, 1):
                if known is not None and known != ("=", val):
                    continue
                ns = st.copy()
                ns.conds[v] = ("=", val)
                x0 = val ^ neg
                out.append((next((b for x, b in arms if x == x0), other), ns))
            return out
        ischar = self.is_char(fn, t[1])
        rest = set()
        for x, b in arms:
            val = chr(x) if ischar else x
            rest.add(val)
            if known is not None:
                if known[0] == "=" and known[1] != val:
                    continue
                if known[0] == "!=" and val in known[1]:
                    continue
            ns = st.copy()
            ns.conds[v] = ("=", val)
            out.append((b, ns))
        if known is None or known[0] == "!=":
            if fn.blocks[other]["t"][0] != "unreachable":
                ns = st.copy()
                ns.conds[v] = ("!=", frozenset(rest) | (known[1] if known else frozenset()))
                out.append((other, ns))
        elif known[1] not in rest:
            out.append((other, st))
        return out

    def as_variant_test(self, v):
        """comparison with a variant of a small field-less enum"""
        if v[0] == "bin" and v[1] in ("Eq", "Ne"):
            for x, y in ((v[2], v[3]), (v[3], v[2])):
                if y[0] == "agg" and not y[4] and x[0] != "agg" and y[1] in self.P.adts:
                    vs = self.P.adts[y[1]]["variants"]
                    if 1 < len(vs) <= 3 and not any(w.get("fields") for w in vs):
                        if v[1] == "Ne" and len(vs) > 2:
                            return v
                        want = y[2] if v[1] == "Eq" else [w["name"] for w in vs if w["name"] != y[2]][0]
                        return ("isv", x, want, tuple(w["name"] for w in vs))
        return v

    def is_bool(self, fn, o):
        t = fn.oty(o)
        return t is not None and self.P.tstr(t) == "bool"

    def is_char(self, fn, o):
        t = fn.oty(o)
        return t is not None and self.P.tstr(t) == "char"

    def variants(self, tid):
        if tid is None:
            return None
        T = self.P.types[tid]
        a = T.get("adt")
        if a in STD_ENUMS:
            e = STD_ENUMS[a]
            return dict(enumerate(e)) if isinstance(e, list) else e
        d = self.P.adts.get(a)
        if d and d["kind"] == "enum":
            return {x["discr"]: x["name"] for x in d["variants"]}
        return None

    def split_discr(self, fn, v, arms, other, st):
        names = self.variants(v[2])
        base, conv = norm_discr(v[1])
        opened = names is None
        if opened:                      # an enum of another crate: what is not named here is "…"
            names = {x: str(x) for x, _ in arms}
            names["…"] = "…"
        inv = {}
        for x, n in names.items():
            inv.setdefault(n, x)
        if base[0] == "agg":
            nm = conv(base[2])
            for x, b in arms:
                if names.get(x) == nm:
                    return [(b, st)]
            return [(other, st)]
        key = ("discr", base)
        # work in base variant names
        basenames = {}
        for n in set(names.values()):
            for bn in unconv(conv, n, base):
                basenames[bn] = n
        known = st.conds.get(key)
        if opened and known is not None and known[0] == "=" and known[1] not in basenames:
            return [(other, st)]
        out, used = [], set()
        armof = {}
        for x, b in arms:
            armof[names.get(x, str(x))] = b
        for bn, n in sorted(basenames.items()):
            if known is not None:
                if known[0] == "=" and known[1] != bn:
                    continue
                if known[0] == "!=" and bn in known[1]:
                    continue
            if self.prune and n in armof and self.prune(key, bn, st):
                continue
            if n in armof:
                ns = st.copy()
                ns.conds[key] = ("=", bn)
                out.append((armof[n], ns))
                used.add(bn)
        rest = [bn for bn, n in basenames.items() if n not in armof]
        if rest and fn.blocks[other]["t"][0] != "unreachable":
            if known is not None and known[0] == "=":
                if known[1] in rest:
                    out.append((other, st))
            else:
                excl = frozenset(bn for bn in basenames if bn not in rest) | (known[1] if known else frozenset())
                left = [bn for bn in rest if not (known and bn in known[1]) and not (self.prune and self.prune(key, bn, st))]
                if len(left) == 1 and left != ["…"]:
                    ns = st.copy()
                    ns.conds[key] = ("=", left[0])
                    out.append((other, ns))
                elif left:
                    ns = st.copy()
                    ns.conds[key] = ("!=", excl)
                    out.append((other, ns))
        return out

    def split_var(self, base, want, allv, st):
        """truth of `base is variant want`"""
        b, conv = norm_discr(base)
        if b[0] == "agg":
            return [(conv(b[2]) == want, st)]
        key = ("discr", b)
        known = st.conds.get(key)
        out = []
        for n in allv:
            for bn in unconv(conv, n, b):
                if known is not None:
                    if known[0] == "=" and known[1] != bn:
                        continue
                    if known[0] == "!=" and bn in known[1]:
                        continue
                if self.prune and self.prune(key, bn, st):
                    continue
                ns = st.copy()
                ns.conds[key] = ("=", bn)
                out.append((n == want, ns))
        return out

    # ---- calls
    def call(self, fn, fid, b, t, st, depth):
        P = self.P
        f = t[1]
        args = [self.operand(fn, fid, a, st) for a in t[2]]
        name = None
        if "p" in f:
            fv = self.load(self.operand(fn, fid, f, st), st)
            if fv[0] in ("fn", "closure"):
                name = fv[1]
                if fv[0] == "closure":
                    args = [fv] + args
            else:
                name = "?indirect"
        else:
            name = f.get("res") or f.get("fn")
            if f.get("reskind") == "virtual":
                name = f.get("fn")
        decl = f.get("fn") or name
        loc = "%s:%d" % (t[5][0], t[5][1])
        # calling a closure value
        if decl in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call") and args:
            fv = self.load(args[0], st)
            if fv[0] in ("closure", "fn") and len(args) > 1 and args[1][0] == "tuple":
                name = fv[1]
                args = ([args[0] if fv[0] == "closure" else None] if fv[0] == "closure" else []) + list(args[1][1])
                decl = name
        if name and name.endswith("::new_uninit") and not args:
            st.uid += 1
            return [(st, ("heap", st.uid))]
        if name and name.endswith("box_assume_init_into_vec_unsafe"):
            v = self.load(args[0], st)
            return [(st, st.mem.get(v, v))]
        m = self.model(fn, name, decl, args, st, t, depth)
        if m is not None:
            return m
        if self.should_inline(name, depth):
            self.inlined.add(name)
            return self.exec_fn(P.fns[name], args, st, depth + 1)
        vals = tuple(self.load(a, st) for a in args)
        caught = [c for v in vals if v[0] == "closure" for c in v[2] if c[0] == "mref"]
        if caught:
            vals = tuple(("closure", v[1], tuple(self.load(c, st) for c in v[2])) if v[0] == "closure" else v for v in vals)
        st.uid += 1
        ret = ("call", name, vals, st.uid)
        st.events.append((name, vals, st.uid, loc))
        if self.probe:
            self.probe(st.events[-1], st)
        if self.stop and self.stop(st.events[-1], st):
            st.stop = True
            return [(st, ret)]
        for a in args:
            if a[0] == "mref":
                old = self.load(a, st)
                self._upd(a[1], a[2], a[3], ("mut", st.uid, name, old), st)
        for a in caught:                # what a closure borrowed mutably may change while it is called
            self._upd(a[1], a[2], a[3], ("mut", st.uid, name, self.load(a, st)), st)
        return [(st, ret)]

    def model(self, fn, name, decl, args, st, t, depth):
        L = lambda i: self.load(args[i], st)
        n = name or ""
        m = last(n)
        if n.startswith("crate::") and self.P.fns.get(n) is not None and not self.P.fns[n].derived and not self.enumset(n):
            return None
        if m == "branch" and ("Try" in n):
            return [(st, ("cf", L(0)))]
        if args and (m == "iter" and "slice::" in n or m == "into_iter" or decl == "std::iter::Iterator::rev"):
            v = L(0)
            if v[0] == "array" and len(v[1]) <= 6:
                return [(st, v if m != "rev" else ("array", tuple(v[1][::-1])))]
        if decl == "std::iter::Iterator::next" and args and args[0][0] == "mref":
            v = L(0)
            if v[0] == "array" and len(v[1]) <= 6:      # a loop over a literal list: each round on its own element
                a = args[0]
                key = ("round", a[1], a[2], a[3])
                if not v[1]:
                    st.visits.pop(key, None)
                    return [(st, ("agg", "std::option::Option", "None", (), ()))]
                here = {k: c for k, c in st.visits.items() if k[0] == a[1]}
                if key in st.visits:
                    before = st.visits[key]
                    for k in here:
                        st.visits[k] = before.get(k, 0)
                else:
                    st.visits[key] = here
                self._upd(a[1], a[2], a[3], ("array", tuple(v[1][1:])), st)
                return [(st, ("agg", "std::option::Option", "Some", ("0",), (v[1][0],)))]
        if m == "from_residual":
            v = L(0)
            ds = self.P.tstr(fn.pty(t[3]) if fn.pty(t[3]) is not None else fn.ret_ty())
            if v[0] == "resid":
                if "Option" in ds.split("<")[0]:
                    return [(st, ("agg", "std::option::Option", "None", (), ()))]
                return [(st, ("agg", "std::result::Result", "Err", ("0",), (fld(v[1], "Err", "0", 0),)))]
            return [(st, ("agg", "std::result::Result", "Err", ("0",), (v,)))]
        if m == "from_output":
            ds = self.P.tstr(fn.pty(t[3]))
            v = "Some" if "Option" in ds.split("<")[0] else "Ok"
            return [(st, ("agg", "std::option::Option" if v == "Some" else "std::result::Result", v, ("0",), (L(0),)))]
        if args and args[0][0] == "mref" and (n.startswith("std::option::Option") and m in ("take", "replace", "insert", "get_or_insert") or n.startswith("std::mem::") and m in ("replace", "swap")):
            some = lambda v: ("agg", "std::option::Option", "Some", ("0",), (v,))
            put = lambda a, v: self._upd(a[1], a[2], a[3], v, st)
            old = L(0)
            if n.startswith("std::mem::"):
                if m == "replace":
                    put(args[0], L(1))
                    return [(st, old)]
                if args[1][0] == "mref":
                    new = L(1)
                    put(args[0], new)
                    put(args[1], old)
                    return [(st, ("k", "()"))]
                return None
            if m == "take":
                put(args[0], ("agg", "std::option::Option", "None", (), ()))
                return [(st, old)]
            if m == "replace":
                put(args[0], some(L(1)))
                return [(st, old)]
            if m == "insert":
                put(args[0], some(L(1)))
                return [(st, L(1))]
            if m == "get_or_insert" and old[0] == "agg" and old[2] in ("None", "Some"):
                if old[2] == "None":
                    put(args[0], some(L(1)))
                    return [(st, L(1))]
                return [(st, old[4][0])]
            return None
        if n.startswith("std::option::Option") or n.startswith("std::result::Result"):
            if m in ("is_some", "is_none"):
                return [(st, ("isv", L(0), "Some" if m == "is_some" else "None", ("None", "Some")))]
            if m in ("is_ok", "is_err"):
                return [(st, ("isv", L(0), "Ok" if m == "is_ok" else "Err", ("Ok", "Err")))]
            if m == "map_err":
                return [(st, ("maperr", L(0), L(1)))]
            if m in ("ok_or", "ok_or_else"):
                return [(st, ("okor", L(0), L(1)))]
            if m == "ok":
                return [(st, ("ok", L(0)))]
            if m == "map":
                return [(st, ("map", L(0), L(1)))]
            if m in ("unwrap", "expect"):
                v = L(0)
                st.events.append((n, (v,), 0, "%s:%d" % (t[5][0], t[5][1])))
                if self.probe:
                    self.probe(st.events[-1], st)
                return [(st, fld(v, "Some" if n.startswith("std::option") else "Ok", "0", 0))]
            if m in ("as_ref", "as_mut", "as_deref", "cloned", "copied", "clone", "as_deref_mut"):
                return [(st, args[0] if m in ("as_mut", "as_deref_mut") else L(0))]
            if m == "unwrap_or_default":
                return [(st, ("ordefault", L(0)))]
            if m in ("unwrap_or", "unwrap_or_else"):
                return [(st, ("orelse", L(0), L(1)))]
            return None
        if decl in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne") or m in ("eq", "ne") and "PartialEq" in n:
            a, b2 = L(0), L(1)
            r = binop("Eq" if m == "eq" else "Ne", a, b2)
            return [(st, r)]
        if self.enumset(n):
            parts = []
            for i, a in enumerate(args):
                v = self.load(a, st)
                parts.append(v)
            if m in ("bitor", "const_only", "only", "from", "init_helper", "const_or", "op_helper", "union", "const_union", "insert", "empty", "new", "bitor_assign") or "or" in m:
                if m in ("insert", "bitor_assign", "insert_all"):
                    old = parts[0]
                    new = mkset(parts)
                    if args[0][0] == "mref":
                        self._upd(args[0][1], args[0][2], args[0][3], new, st)
                    else:
                        st.uid += 1
                        st.events.append((n, tuple(parts), st.uid, "%s:%d" % (t[5][0], t[5][1])))
                    return [(st, ("k", "bool"))]
                return [(st, mkset(parts))]
            ls = [lit(x) for x in parts]
            if ls and all(x is not None for x in ls):
                a, b2 = ls[0], ls[1] if len(ls) > 1 else frozenset()
                r = {"contains": lambda: b2 <= a, "is_subset": lambda: a <= b2, "is_superset": lambda: a >= b2, "is_empty": lambda: not a,
                     "is_disjoint": lambda: not (a & b2)}.get(m)
                if r:
                    return [(st, ("const", int(r())))]
                r = {"intersection": lambda: a & b2, "difference": lambda: a - b2, "bitand": lambda: a & b2, "sub": lambda: a - b2,
                     "remove": lambda: None}.get(m)
                if r and r() is not None:
                    return [(st, ("set", r(), ()))]
                if m == "len":
                    return [(st, ("const", len(a)))]
            return None
        if decl == "std::default::Default::default" and not args:
            return [(st, ("default", self.P.tstr(fn.pty(t[3]))))]
        if n.startswith("core::fmt::rt::Argument"):
            return [(st, ("fmtarg", m, L(0)))]
        if n.startswith("std::fmt::Arguments"):
            if m == "new":
                tm = L(0)
                a = L(1)
                return [(st, ("fmt", template(tm), a[1] if a[0] == "array" else (a,)))]
            if m in ("from_str", "new_const", "from_str_nonconst"):
                v = L(0)
                return [(st, ("fmt", (v[1],) if v[0] == "str" else ("?",), ()))]
        if IDENT.search(n) and args:
            return [(st, args[0] if args[0][0] == "mref" and m in ("deref_mut", "as_mut", "borrow_mut") else L(0))]
        return None

    def enumset(self, n):
        return "enumset::" in n or "__EnumSet" in n or "::_::<impl " in n and ("BitOr" in n or "EnumSet" in n)


class FlowLimit(Exception):
    pass


def template(v):
    """pieces of a format template: literal strings and argument indices"""
    if v[0] == "str":
        return (v[1],)
    if v[0] != "mem":
        return ("?",)
    b = v[1]
    out, i, argn = [], 0, 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(bytes(b[i:i + x]).decode("utf-8", "replace"))
            i += x
        elif x == 0x80:
            ln = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(bytes(b[i:i + ln]).decode("utf-8", "replace"))
            i += ln
        elif x & 0xC0 == 0xC0:
            # optional parts follow the placeholder: flags, width, precision, argument index
            if x & 1:
                i += 4
            if x & 2:
                i += 2
            if x & 4:
                i += 2
            if x & 8:
                argn = b[i] | (b[i + 1] << 8)
                i += 2
            out.append(argn)
            argn += 1
        else:
            out.append("?")
    # merge neighbouring literals
    res = []
    for x in out:
        if res and isinstance(x, str) and isinstance(res[-1], str):
            res[-1] += x
        else:
            res.append(x)
    return tuple(res)


def mkset(parts):
    out = set()
    opq = []
    for p in parts:
        if p[0] == "set":
            out |= p[1]
            opq += list(p[2])
        elif p[0] == "agg" and not p[4]:
            out.add(p[2])
        elif p[0] == "agg" and "EnumSet" in p[1]:
            pass
        elif p[0] in ("k", "default", "mem", "const", "agg"):
            pass
        elif p[0] == "undef":
            pass
        else:
            opq.append(p)
    return ("set", frozenset(out), tuple(opq))


def lit(v):
    if v[0] == "set" and not v[2]:
        return v[1]
    if v[0] == "agg" and not v[4]:
        return frozenset([v[2]])
    return None


def index(v, idx):
    if v[0] in ("array", "tuple") and idx[0] == "const" and idx[1] < len(v[1]):
        return v[1][idx[1]]
    return ("index", v, idx)


def fld(base, var, name, i):
    if base[0] == "agg":
        if name in base[3]:
            return base[4][base[3].index(name)]
        if i < len(base[4]):
            return base[4][i]
    if base[0] in ("tuple", "closure"):
        ops = base[1] if base[0] == "tuple" else base[2]
        if i < len(ops):
            return ops[i]
    if base[0] == "upd":
        for p, v in reversed(base[2]):
            if p == (name,) or p == ((var, name),):
                return v
        return fld(base[1], var, name, i)
    if base[0] == "cf":
        if var == "Continue":
            x = base[1]
            return payload(x)
        if var == "Break":
            return ("resid", base[1])
    if base[0] == "maperr" and var == "Ok":
        return fld(base[1], "Ok", "0", 0)
    if base[0] == "maperr" and var == "Err":
        return ("errof", base[2], fld(base[1], "Err", "0", 0))
    if base[0] == "okor":
        if var == "Ok":
            return fld(base[1], "Some", "0", 0)
        if var == "Err":
            return base[2]
    if base[0] == "ok" and var == "Some":
        return fld(base[1], "Ok", "0", 0)
    if base[0] == "map" and var in ("Some", "Ok"):
        return ("app", base[2], fld(base[1], var, "0", 0))
    if base[0] == "map" and var == "Err":
        return fld(base[1], var, "0", 0)
    return ("fld", base, var, name)


def payload(x):
    """the success value of an Option or Result whose kind is not known"""
    if x[0] == "agg":
        return x[4][0] if x[4] else ("unit",)
    if x[0] == "maperr":
        return payload(x[1])
    if x[0] in ("okor", "ok"):
        return payload(x[1])
    if x[0] == "map":
        return ("app", x[2], payload(x[1]))
    return ("fld", x, "+", "0")


def upd(cur, proj, val):
    if cur[0] == "agg" and len(proj) >= 1 and proj[0][0] == "f":
        ops = list(cur[4])
        i = proj[0][1]
        if i < len(ops):
            ops[i] = val if len(proj) == 1 else upd(ops[i], proj[1:], val)
            return ("agg", cur[1], cur[2], cur[3], tuple(ops))
    if cur[0] == "tuple" and proj[0][0] == "f" and proj[0][1] < len(cur[1]):
        ops = list(cur[1])
        i = proj[0][1]
        ops[i] = val if len(proj) == 1 else upd(ops[i], proj[1:], val)
        return ("tuple", tuple(ops))
    names = []
    for e in proj:
        if e[0] == "f":
            names.append(e[2] or str(e[1]))
        elif e[0] in ("*", "d"):
            continue
        else:
            names.append(e)
    ups = cur[2] if cur[0] == "upd" else ()
    base = cur[1] if cur[0] == "upd" else cur
    return ("upd", base, ups + ((tuple(names), val),))


def norm_discr(v):
    """the term whose discriminant decides v's, and how its variant names translate"""
    conv = lambda n: n
    while True:
        if v[0] == "cf":
            c0 = conv
            conv = (lambda c0: lambda n: c0({"Ok": "Continue", "Some": "Continue", "Err": "Break", "None": "Break", "+": "Continue", "-": "Break"}.get(n, n)))(c0)
            v = v[1]
        elif v[0] in ("maperr", "map"):
            v = v[1]
        elif v[0] == "okor":
            c0 = conv
            conv = (lambda c0: lambda n: c0({"Some": "Ok", "None": "Err"}.get(n, n)))(c0)
            v = v[1]
        elif v[0] == "ok":
            c0 = conv
            conv = (lambda c0: lambda n: c0({"Ok": "Some", "Err": "None"}.get(n, n)))(c0)
            v = v[1]
        else:
            return v, conv


def unconv(conv, n, base):
    """base variant names that translate to n"""
    c = [x for x in ("Ok", "Err", "Some", "None") if conv(x) == n]
    if n in ("Continue", "Break"):
        # `?` on a value whose kind is not known: call it + (success) and - (failure)
        return ["+"] if n == "Continue" else ["-"]
    if n in ("Ok", "Some") and conv("+") != "+":
        return ["+"]
    if conv("zz") == "zz" and n in ("Ok", "Some"):
        return ["+"]
    if n in ("Err", "None"):
        return ["-"]
    return [n]


def binop(op, a, b):
    op = {"AddWithOverflow": "Add", "SubWithOverflow": "Sub", "MulWithOverflow": "Mul", "AddUnchecked": "Add", "SubUnchecked": "Sub"}.get(op, op) \
        if not op.endswith("WithOverflow") else op
    if op in ("Eq", "Ne") and a[0] == b[0] and a[0] in ("const", "char", "str"):
        r = a[1] == b[1]
        return ("const", int(r if op == "Eq" else not r))
    if op in ("Eq", "Ne") and a[0] == "agg" and b[0] == "agg" and (not a[4] and not b[4] or a[1] == b[1] == "std::option::Option"):
        if a[2] != b[2] or not a[4]:
            return ("const", int((a[2] == b[2]) == (op == "Eq")))
        return binop(op, a[4][0], b[4][0])
    if op in ("Eq", "Ne") and a == b and a[0] in ("arg", "fld", "call", "bin"):
        return ("const", int(op == "Eq"))
    if op.endswith("WithOverflow"):
        o = op[:-12]
        return ("tuple", (binop(o, a, b), ("const", 0)))
    if a[0] == "char" and b[0] == "char" and op in ("Lt", "Le", "Gt", "Ge"):
        a, b = ("const", ord(a[1])), ("const", ord(b[1]))
    if a[0] == "const" and b[0] == "const":
        f = {"Add": lambda: a[1] + b[1], "Sub": lambda: a[1] - b[1], "Mul": lambda: a[1] * b[1], "BitOr": lambda: a[1] | b[1],
             "BitAnd": lambda: a[1] & b[1], "Lt": lambda: int(a[1] < b[1]), "Le": lambda: int(a[1] <= b[1]),
             "Gt": lambda: int(a[1] > b[1]), "Ge": lambda: int(a[1] >= b[1]), "Shl": lambda: a[1] << b[1] if 0 <= b[1] < 64 else 0,
             "Eq": lambda: int(a[1] == b[1]), "Ne": lambda: int(a[1] != b[1]), "Shr": lambda: a[1] >> b[1] if 0 <= b[1] < 64 else 0,
             "BitXor": lambda: a[1] ^ b[1]}.get(op)
        if f:
            return ("const", f())
    if op == "Ne":
        return ("un", "Not", binop("Eq", a, b))
    if op == "Eq" and a[0] in ("const", "char", "str") and b[0] not in ("const", "char", "str"):
        a, b = b, a
    return ("bin", op, a, b)


def walk(t):
    """all subterms"""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(x)
        elif isinstance(x, frozenset):
            st.extend(x)
