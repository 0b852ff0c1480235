"""Program model over the extractor's facts: functions, CFGs, dominators, call graph."""
from collections import defaultdict, deque


class Ty:
    __slots__ = ("id", "s", "k", "adt", "args", "raw")


class Prog:
    def __init__(self, facts):
        self.facts = facts
        self.crate = facts["crate"]
        self.is_bin = facts["bin"]
        self.types = facts["types"]
        self.adts = {a["path"]: a for a in facts["adts"]}
        self.fns = {}
        for f in facts["fns"]:
            p = f["path"]
            if p in self.fns:          # several impls may print alike
                i = 2
                while "%s#%d" % (p, i) in self.fns:
                    i += 1
                p = "%s#%d" % (p, i)
            self.fns[p] = Fn(self, p, f)
        self._cg = None
        self.trait_impls = defaultdict(list)     # trait method path -> impl fns
        self.impls_of_adt = defaultdict(list)    # local adt path -> trait impl fns
        for fn in self.fns.values():
            io = fn.raw.get("impl_of")
            if io:
                self.trait_impls[io].append(fn)
                for a in self.ty_adts(fn.raw["self"]):
                    self.impls_of_adt[a].append(fn)
            d = fn.raw.get("default_of")
            if d:
                self.trait_impls[d].append(fn)

    # ---- types
    def tstr(self, t):
        return self.types[t]["s"]

    def ty(self, t):
        return self.types[t]

    def peel(self, t):
        """strips references and boxes"""
        while True:
            T = self.types[t]
            if T.get("k") in ("ref", "ptr"):
                t = T["args"][0]
            elif T.get("k") == "adt" and T["adt"] in ("std::boxed::Box", "alloc::boxed::Box", "std::rc::Rc", "std::sync::Arc"):
                t = T["args"][0]
            else:
                return t

    def ty_adts(self, t, _seen=None):
        """paths of all ADTs/closures mentioned in the type arguments (not fields) of t"""
        seen = _seen if _seen is not None else set()
        out = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            T = self.types[x]
            if T.get("k") == "adt":
                out.add(T["adt"])
            st.extend(T.get("args", ()))
        return out

    def ty_closures(self, t):
        out, seen, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            T = self.types[x]
            if T.get("k") in ("closure", "fndef") and T.get("local"):
                out.add(T["fn"])
            st.extend(T.get("args", ()))
        return out

    def fields_closure(self, t):
        """all types reachable from t through fields and type arguments (local ADTs opened)"""
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            T = self.types[x]
            st.extend(T.get("args", ()))
            if T.get("k") == "adt" and T.get("local"):
                a = self.adts.get(T["adt"])
                if a:
                    for v in a["variants"]:
                        for f in v["fields"]:
                            st.append(f[1])
        return seen

    # ---- functions
    def find(self, suffix):
        r = [f for p, f in self.fns.items() if p == suffix or p.endswith("::" + suffix)]
        return r

    def one(self, suffix):
        r = self.find(suffix)
        if len(r) != 1:
            raise AnchorError("anchor %s matches %d functions in %s" % (suffix, len(r), self.crate))
        return r[0]

    # ---- call graph
    def callgraph(self):
        if self._cg is None:
            self._cg = {p: f.callees() for p, f in self.fns.items()}
        return self._cg

    def reach(self, roots, stop=()):
        cg = self.callgraph()
        parent = {}
        dq = deque()
        for r in roots:
            parent[r] = None
            dq.append(r)
        while dq:
            x = dq.popleft()
            for y in sorted(cg.get(x, {}).get("local", ())):
                if y in parent or y in stop or y not in self.fns:
                    continue
                parent[y] = x
                dq.append(y)
        return parent

    # rapid type analysis over enum variants: an arm matching a variant that no reachable code
    # constructs is dead, and so are the calls in it
    def rta(self, roots, seed=()):
        enums = {p: [v["name"] for v in a["variants"]] for p, a in self.adts.items() if len(a["variants"]) > 1}
        live_v = set(seed)              # (adt, variant index)
        live_f = {}                     # fn -> parent
        for r in roots:
            live_f[r] = None
        changed = True
        reach_blocks = {}
        while changed:
            changed = False
            work = list(live_f)
            i = 0
            while i < len(work):
                f = self.fns.get(work[i])
                i += 1
                if f is None:
                    continue
                blocks, cons = f.rta_blocks(live_v, enums)
                reach_blocks[f.path] = blocks
                new = cons - live_v
                if new:
                    live_v |= new
                    changed = True
                for y in sorted(f.callees(blocks)["local"]):
                    if y not in live_f and y in self.fns:
                        live_f[y] = f.path
                        work.append(y)
                        changed = True
        return live_f, reach_blocks, live_v

    def api(self, name):
        """public methods of the crate's translator type, found by name on the exported type"""
        r = [f for f in self.fns.values() if f.raw.get("exported") and f.path.split("::")[-1] == name
             and f.path.startswith("crate::Translator::")]
        if len(r) != 1:
            raise AnchorError("public function Translator::%s not found" % name)
        return r[0].path

    def compile_roots(self):
        return [self.api("new"), self.api("from_table_source")]

    def translate_roots(self):
        return [self.api("translate"), self.api("translate_with_options")]

    def api_rta(self):
        if not hasattr(self, "_api_rta"):
            self._api_rta = self.rta(self.compile_roots() + self.translate_roots())
        return self._api_rta

    def chain(self, parent, x):
        out = [x]
        while parent.get(x):
            x = parent[x]
            out.append(x)
        return list(reversed(out))


class AnchorError(Exception):
    pass


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[5]]
    return []


class Fn:
    def __init__(self, prog, path, raw):
        self.prog = prog
        self.path = path
        self.raw = raw
        self.kind = raw["kind"]
        self.body = raw["body"]
        self.blocks = self.body["blocks"]
        self.locals = self.body["locals"]
        self.argc = self.body["argc"]
        self._dom = None
        self._preds = None
        self._reach = None

    def __repr__(self):
        return "<Fn %s>" % self.path

    @property
    def file(self):
        return self.raw["span"][0]

    @property
    def line(self):
        return self.raw["span"][1]

    @property
    def derived(self):
        return bool(self.raw.get("derived"))

    def lty(self, l):
        return self.locals[l][0]

    def lname(self, l):
        x = self.locals[l]
        return x[1] if len(x) > 1 else None

    def ret_ty(self):
        return self.locals[0][0]

    # place type
    def pty(self, place):
        """type id of a place (None when a projection needs more than the tables hold)"""
        t = self.locals[place[0]][0]
        P = self.prog
        for e in place[1]:
            if t is None:
                return None
            T = P.types[t]
            if e[0] == "*":
                t = T["args"][0] if T.get("args") else None
            elif e[0] == "f":
                t = e[4]
            elif e[0] in ("i", "ci"):
                t = T["args"][0] if T.get("args") else None
            elif e[0] == "ss":
                pass
            elif e[0] == "d":
                pass
            else:
                return None
        return t

    def oty(self, op):
        if "p" in op:
            return self.pty(op["p"])
        return op.get("c")

    # CFG
    def reachable(self):
        if self._reach is None:
            seen = {0}
            st = [0]
            while st:
                b = st.pop()
                for s in succs(self.blocks[b]["t"]):
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self._reach = seen
        return self._reach

    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for b in self.reachable():
                for s in succs(self.blocks[b]["t"]):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def rpo(self):
        seen, order = set(), []
        st = [(0, iter(succs(self.blocks[0]["t"])))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succs(self.blocks[s]["t"]))))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        return order

    def dominators(self):
        """block -> immediate dominator"""
        if self._dom is None:
            rpo = self.rpo()
            idx = {b: i for i, b in enumerate(rpo)}
            idom = {0: 0}
            preds = self.preds()
            changed = True
            while changed:
                changed = False
                for b in rpo[1:]:
                    new = None
                    for p in preds[b]:
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                a, c = p, new
                                while a != c:
                                    while idx[a] > idx[c]:
                                        a = idom[a]
                                    while idx[c] > idx[a]:
                                        c = idom[c]
                                new = a
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        changed = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        idom = self.dominators()
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            b = idom[b]

    def rta_blocks(self, live_v, enums):
        """blocks reachable when only live_v variants exist, and the variants those blocks build"""
        P = self.prog
        seen, st, cons = {0}, [0], set()

        def const_op(o):
            if "c" in o:
                for a in P.ty_adts(o["c"]):
                    if a in enums and P.types[o["c"]].get("k") != "fndef":
                        if "v" in o and P.types[o["c"]].get("adt") == a:
                            if 0 <= o["v"] < len(enums[a]):
                                cons.add((a, o["v"]))
                        elif "promoted" not in o:
                            cons.update((a, i) for i in range(len(enums[a])))
                T = P.types[o["c"]]
                if T.get("k") == "fndef":
                    f = P.fns.get(o.get("res") or o.get("fn") or "")
                    n = o.get("fn") or ""
                    for a in enums:
                        if n.startswith(a + "::"):
                            v = n[len(a) + 2:]
                            if v in enums[a]:
                                cons.add((a, enums[a].index(v)))

        for pr in self.raw.get("promoted", ()):
            for b in pr["blocks"]:
                for s in b["s"]:
                    if s[0] == "=":
                        if s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in enums:
                            cons.add((s[2][1][1], s[2][1][2]))
                        for o in rv_operands(s[2]):
                            const_op(o)
        while st:
            b = st.pop()
            B = self.blocks[b]
            src = {}
            for s in B["s"]:
                if s[0] == "=":
                    if s[2][0] == "discr" and not s[1][1]:
                        src[s[1][0]] = s[2][1]
                    if s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in enums:
                        cons.add((s[2][1][1], s[2][1][2]))
                    for o in rv_operands(s[2]):
                        const_op(o)
                elif s[0] == "setd":
                    t = self.pty(s[1])
                    if t is not None:
                        a = P.types[P.peel(t)].get("adt")
                        if a in enums:
                            cons.add((a, s[2]))
            t = B["t"]
            nxt = succs(t)
            if t[0] == "call":
                const_op(t[1])
                for o in t[2]:
                    const_op(o)
            if t[0] == "switch" and "p" in t[1] and not t[1]["p"][1] and t[1]["p"][0] in src:
                ty = self.pty(src[t[1]["p"][0]])
                a = P.types[ty].get("adt") if ty is not None else None
                if a in enums and not P.adts[a].get("discr"):
                    nxt = [x for v, x in t[2] if (a, v) in live_v]
                    rest = set(range(len(enums[a]))) - {v for v, _ in t[2]}
                    if any((a, v) in live_v for v in rest):
                        nxt.append(t[3])
            for x in nxt:
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return frozenset(seen), cons

    # iteration helpers
    def stmts(self):
        for b in sorted(self.reachable()):
            for i, s in enumerate(self.blocks[b]["s"]):
                yield b, i, s

    def calls(self):
        for b in sorted(self.reachable()):
            t = self.blocks[b]["t"]
            if t[0] == "call":
                yield Call(self, b, t)

    def operands(self, only=None):
        """every operand in the body (and its promoteds)"""
        bodies = [(self.blocks, self.reachable() if only is None else only)]
        for p in self.raw.get("promoted", ()):
            bodies.append((p["blocks"], range(len(p["blocks"]))))
        for blocks, rs in bodies:
            for b in rs:
                for s in blocks[b]["s"]:
                    if s[0] == "=":
                        for o in rv_operands(s[2]):
                            yield o
                t = blocks[b]["t"]
                if t[0] == "call":
                    yield t[1]
                    for o in t[2]:
                        yield o
                elif t[0] == "switch":
                    yield t[1]
                elif t[0] == "assert":
                    yield t[1]
                    for o in t[4]:
                        yield o

    def callees(self, only=None):
        if only is not None:
            k = self.__dict__.setdefault("_callees", {})
            if only not in k:
                k.clear()
                k[only] = self._callees_of(only)
            return k[only]
        return self._callees_of(None)

    def _callees_of(self, only):
        P = self.prog
        local, ext = set(), set()
        blks = self.reachable() if only is None else only

        def add_ty(t):
            if t is None:
                return
            for c in P.ty_closures(t):
                if c in P.fns:
                    local.add(c)

        def impls_for(t):
            for a in P.ty_adts(t):
                for f in P.impls_of_adt.get(a, ()):
                    local.add(f.path)

        for o in self.operands(only):
            if "c" not in o:
                continue
            T = P.types[o["c"]]
            if T.get("k") == "fndef" or "fn" in o:
                name = o.get("fn")
                res = o.get("res")
                if res and o.get("reskind") != "virtual":
                    if o.get("reslocal"):
                        local.add(res)
                        # unresolved further: default method of a trait called on a local type
                    else:
                        ext.add(res)
                        impls_for(o["c"])
                    if res != name and not o.get("reslocal") and name:
                        ext.add(name)
                elif name:
                    if name in P.fns and not P.fns[name].raw.get("default_of"):
                        local.add(name)
                    elif name in P.trait_impls or o.get("fnlocal"):
                        for f in P.trait_impls.get(name, ()):
                            local.add(f.path)
                        if name in P.fns:
                            local.add(name)
                    else:
                        ext.add(name)
                        for f in P.trait_impls.get(name, ()):
                            local.add(f.path)
                        impls_for(o["c"])
                add_ty(o["c"])
            elif "constdef" in o and o["constdef"] in P.fns:
                local.add(o["constdef"])
            if "static" in o and o["static"] in P.fns:
                local.add(o["static"])
            if "fn" in o and T.get("k") != "fndef":
                if o["fn"] in P.fns:
                    local.add(o["fn"])
                else:
                    ext.add(o["fn"])
        for b, i, s in self.stmts():
            if b not in blks:
                continue
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                if s[2][1][1] in P.fns:
                    local.add(s[2][1][1])
            if s[0] == "=" and s[2][0] == "cast" and "Unsize" in s[2][1]:
                # unsizing to dyn: every impl of the target trait for the source type
                impls_for(self.oty(s[2][2]) if self.oty(s[2][2]) is not None else s[2][3])
        for b in blks:
            t = self.blocks[b]["t"]
            if t[0] == "drop":
                for a in P.ty_adts(t[3]):
                    for f in P.impls_of_adt.get(a, ()):
                        if f.raw.get("trait", "").endswith("ops::Drop"):
                            local.add(f.path)
        local.discard(self.path)
        if any(o.get("res") == self.path or o.get("fn") == self.path for o in self.operands(only) if "c" in o):
            local.add(self.path)
        return {"local": local, "ext": ext}


class Call:
    __slots__ = ("fn", "b", "t")

    def __init__(self, fn, b, t):
        self.fn, self.b, self.t = fn, b, t

    @property
    def func(self):
        return self.t[1]

    @property
    def args(self):
        return self.t[2]

    @property
    def dest(self):
        return self.t[3]

    @property
    def target(self):
        return self.t[4]

    @property
    def span(self):
        return self.t[5]

    @property
    def name(self):
        """resolved callee path; falls back to the trait method path"""
        f = self.t[1]
        return f.get("res") or f.get("fn")

    @property
    def decl(self):
        return self.t[1].get("fn")

    @property
    def macros(self):
        sp = self.t[5]
        return sp[2] if len(sp) > 2 else []

    def loc(self):
        return "%s:%d" % (self.t[5][0], self.t[5][1])

    def __repr__(self):
        return "<Call %s @%s>" % (self.name, self.loc())


def rv_operands(rv):
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []
