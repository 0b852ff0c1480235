"""C13: positions count characters, offsets into strings count bytes, and the two are never mixed."""
from collections import deque
from prog import rv_operands
from terms import last

EXPLANATION = ("Unit inference over the MIR of the library: every integer gets one of the units 'bytes of a string', 'characters' and 'instructions of a matcher' where the standard library "
               "fixes it (len, find, char_indices and slicing of strings; count, nth, skip, enumerate of characters; indices of character vectors), and units are propagated through assignments, "
               "fields, calls, closures, iterators, additions and comparisons. A value that gets two units, a byte offset that is shifted by a constant or compared with one is a violation; "
               "the chain of assignments between the two places is reported.")
LEVEL = "other"
ASSUMPTIONS = ["the functions of the standard library count what their documentation says", "calls through trait objects and generic containers not listed in the rule pass no units on"]

BYTES, CHARS, INSTR = "bytes", "characters", "instructions"
INT = ("usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "i128")


def asserted(f, b, s):
    """a comparison that an assertion makes"""
    t = f.blocks[b]["t"]
    if s[2][0] != "bin" or t[0] != "switch" or t[1].get("p") != s[1]:
        return False
    for k in [k for _, k in t[2]] + [t[3]]:
        e = f.blocks[k]["t"] if isinstance(k, int) and k >= 0 else ("none",)
        if e[0] == "call" and e[4] == -1 and len(e[5]) > 2 and any("assert" in str(m) for m in e[5][2]):
            return True
    return False


class Graph:
    def __init__(self):
        self.up, self.kids, self.edges, self.seeds = [], [], [], []
        self.names = []

    def new(self, name=""):
        self.up.append(len(self.up))
        self.kids.append({})
        self.edges.append([])
        self.names.append(name)
        return len(self.up) - 1

    def root(self, n):
        while self.up[n] != n:
            self.up[n] = self.up[self.up[n]]
            n = self.up[n]
        return n

    def kid(self, n, k):
        r = self.root(n)
        if k not in self.kids[r]:
            self.kids[r][k] = self.new(self.names[n] + k)
        return self.kids[r][k]

    def join(self, a, b, loc):
        st = [(a, b)]
        while st:
            a, b = st.pop()
            self.edges[a].append((b, loc))
            self.edges[b].append((a, loc))
            ra, rb = self.root(a), self.root(b)
            if ra == rb:
                continue
            if len(self.kids[ra]) < len(self.kids[rb]):
                ra, rb = rb, ra
            self.up[rb] = ra
            for k, c in self.kids[rb].items():
                if k in self.kids[ra]:
                    st.append((self.kids[ra][k], c))
                else:
                    self.kids[ra][k] = c
            self.kids[rb] = {}

    def seed(self, n, unit, loc, what):
        self.seeds.append((n, unit, loc, what))

    def path(self, a, b):
        prev = {a: None}
        dq = deque([a])
        while dq:
            x = dq.popleft()
            if x == b:
                break
            for y, loc in self.edges[x]:
                if y not in prev:
                    prev[y] = (x, loc)
                    dq.append(y)
        out = []
        while b in prev and prev[b]:
            out.append(prev[b][1])
            b = prev[b][0]
        return list(reversed(out))


class Units:
    def __init__(self, P, skip):
        self.P, self.G = P, Graph()
        self.nodes, self.globals = {}, {}
        self.uses, self.unknown = [], {}
        self.n = {"functions": 0, "calls": 0, "assignments": 0}
        self.rets = {}
        for f in P.fns.values():
            if skip(f):
                continue
            self.n["functions"] += 1
            self.function(f)

    # nodes
    def local(self, f, l):
        k = (f.path, l)
        if k not in self.nodes:
            nm = f.lname(l)
            self.nodes[k] = self.G.new("%s::%s" % (f.path, nm[0] if isinstance(nm, list) and nm else nm or "_%d" % l))
            if f.kind == "closure" and l == 1:
                self.G.join(self.nodes[k], self.glob(("closure", f.path)), "%s:%d" % (f.file, f.line))
        return self.nodes[k]

    def glob(self, k):
        if k not in self.globals:
            self.globals[k] = self.G.new("::".join(str(x) for x in k))
        return self.globals[k]

    def place(self, f, p, loc):
        n = self.local(f, p[0])
        t = f.locals[p[0]][0]
        for e in p[1]:
            T = self.P.types[t] if t is not None else {}
            if e[0] == "f":
                own = e[3] if len(e) > 3 else ""
                if own.startswith("crate::"):
                    n = self.glob(("field", own, e[1]))
                elif last(own) in ("ManuallyDrop", "Box", "Unique", "NonNull", "Pin", "MaybeUninit"):
                    pass
                else:
                    n = self.G.kid(n, "." + (last(own) + "." if own and "{" not in own else "") + str(e[1]))
                t = e[4] if len(e) > 4 else None
            elif e[0] in ("i", "ci"):
                if e[0] == "i":
                    i = e[1] if isinstance(e[1], int) else e[1][0]
                    self.index(f, n, t, self.local(f, i), loc)
                n = self.G.kid(n, "[]")
                t = T["args"][0] if T.get("args") else None
            elif e[0] == "*":
                t = T["args"][0] if T.get("args") else None
        return n

    def operand(self, f, o, loc):
        """node of an operand; None for a constant"""
        if "p" in o:
            return self.place(f, o["p"], loc)
        return None

    def elem(self, t):
        """type of the elements of a vector, slice or array behind references; 'str' for strings"""
        if t is None:
            return None
        t = self.P.peel(t)
        s = self.P.tstr(t)
        if s in ("str", "std::string::String"):
            return "str"
        T = self.P.types[t]
        if s.startswith(("std::vec::Vec<", "[", "smallvec::SmallVec<", "std::collections::VecDeque<")) and T.get("args"):
            return self.P.tstr(T["args"][0])
        return None

    def space(self, f, n, t, loc):
        """node of the index space of a container or iterator"""
        e = self.elem(t)
        k = self.G.new("length of a string") if e == "str" else self.G.kid(n, "#")
        u = BYTES if e == "str" else CHARS if e == "char" else INSTR if e and e.endswith("regexp::Instruction") else BYTES if e == "u8" else None
        if u and u != BYTES or e == "str":
            self.G.seed(k, u, loc, "index of " + ("a string" if e == "str" else "a vector of " + e.split("::")[-1]))
        elif t is not None:
            s = self.P.tstr(self.P.peel(t))
            if s.startswith(("std::str::Chars<", "std::iter::Rev<std::str::Chars<", "std::iter::Peekable<std::str::Chars<")) or s.startswith("std::str::CharIndices<"):
                self.G.seed(k, CHARS, loc, "number of characters")
            elif s.startswith("std::str::Bytes<"):
                self.G.seed(k, BYTES, loc, "number of bytes")
        return k

    def index(self, f, n, t, i, loc):
        self.G.join(self.space(f, n, t, loc), i, loc)

    def is_range(self, t):
        return t is not None and self.P.tstr(self.P.peel(t)).startswith(("std::ops::Range", "core::ops::Range"))

    def range_ends(self, n):
        return [self.G.kid(n, ".Range.0"), self.G.kid(n, ".Range.1")]

    # functions
    def function(self, f):
        for b in sorted(f.reachable()):
            for s in f.blocks[b]["s"]:
                if s[0] == "=":
                    if asserted(f, b, s):
                        continue
                    self.assign(f, s)
            t = f.blocks[b]["t"]
            if t[0] == "call":
                self.n["calls"] += 1
                self.call(f, t)

    def loc(self, sp):
        return "%s:%d" % (sp[0], sp[1])

    def assign(self, f, s):
        self.n["assignments"] += 1
        G, rv, loc = self.G, s[2], self.loc(s[3])
        k = rv[0]
        if k == "discr":
            return
        d = self.place(f, s[1], loc)
        if k in ("use", "cast"):
            o = rv[1] if k == "use" else rv[2]
            n = self.operand(f, o, loc)
            if n is not None and not (k == "cast" and self.P.tstr(f.oty(o)) == "char" if f.oty(o) is not None else False):
                G.join(d, n, loc)
        elif k in ("ref", "rawptr"):
            G.join(d, self.place(f, rv[-1], loc), loc)
        elif k == "bin":
            op, a, b = rv[1], rv[2], rv[3]
            ta = f.oty(a)
            if ta is None or self.P.tstr(self.P.peel(ta)) not in INT:
                return
            na, nb = self.operand(f, a, loc), self.operand(f, b, loc)
            if op.startswith(("Add", "Sub")):
                r = G.kid(d, ".0") if "WithOverflow" in op else d
                for x in (na, nb):
                    if x is not None:
                        G.join(r, x, loc)
                c = b if nb is None else a if na is None else None
                if c is not None and c.get("v") != 0 and (na is not None or nb is not None):
                    self.uses.append((na if na is not None else nb, "shifted by the constant %s" % c.get("v"), loc, f))
            elif op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                if len(s[3]) > 2 and any("assert" in str(m) for m in s[3][2]):
                    return
                if na is not None and nb is not None:
                    G.join(na, nb, loc)
                else:
                    c = b if nb is None else a
                    low = ("Lt", "Le") if c is b else ("Gt", "Ge")     # fewer bytes than that are fewer characters, too
                    if c.get("v") not in (0, None) and op not in low and not (op == "Ge" and c is b and c.get("v") == 1):
                        self.uses.append((na if na is not None else nb, "compared with the constant %s" % c.get("v"), loc, f))
        elif k == "agg":
            kind = rv[1]
            for i, o in enumerate(rv[2]):
                n = self.operand(f, o, loc)
                if n is None:
                    continue
                if kind[0] == "adt":
                    own = kind[1]
                    a = self.P.adts.get(own)
                    enum = a is not None and len(a["variants"]) > 1
                    if own.startswith("crate::"):
                        own = own + "::" + kind[3] if enum or a is not None and a.get("kind") == "enum" else own
                        t = self.glob(("field", own, i))
                    elif last(own) in ("Option", "Result", "Bound", "Cow", "ControlFlow"):
                        t = G.kid(d, "." + kind[3] + "." + str(i))
                    else:
                        t = G.kid(d, "." + last(own) + "." + str(i))
                elif kind[0] == "tuple":
                    t = G.kid(d, "." + str(i))
                elif kind[0] == "array":
                    t = G.kid(d, "[]")
                elif kind[0] == "closure":
                    t = G.kid(self.glob(("closure", kind[1])), "." + str(i))
                else:
                    continue
                G.join(t, n, loc)
            if kind[0] == "closure":
                G.join(d, self.glob(("closure", kind[1])), loc)
        elif k == "repeat":
            n = self.operand(f, rv[1], loc)
            if n is not None:
                G.join(G.kid(d, "[]"), n, loc)

    def closure(self, f, o):
        """closure (or function) a call argument stands for: (Fn, first parameter index)"""
        t = f.oty(o)
        if t is None:
            return None
        T = self.P.types[self.P.peel(t)]
        if T.get("k") in ("closure", "fndef") and T.get("fn") in self.P.fns:
            g = self.P.fns[T["fn"]]
            return g, 2 if T["k"] == "closure" else 1
        return None

    def apply(self, f, o, params, loc):
        """joins the parameters of a closure argument, gives the node of its result"""
        c = self.closure(f, o)
        if c is None:
            return None
        g, i = c
        for p in params:
            if p is not None and i <= g.argc:
                self.G.join(self.local(g, i), p, loc)
            i += 1
        return self.local(g, 0)

    def call(self, f, t):
        G, loc = self.G, self.loc(t[5])
        func, args, dest = t[1], t[2], t[3]
        name = func.get("res") or func.get("fn")
        d = self.place(f, dest, loc)
        ns = [self.operand(f, a, loc) for a in args]
        tys = [f.oty(a) for a in args]
        J = lambda a, b: a is not None and b is not None and G.join(a, b, loc)
        if name in self.P.fns:
            g = self.P.fns[name]
            for i, n in enumerate(ns):
                if n is not None and i + 1 <= g.argc:
                    J(self.local(g, i + 1), n)
            J(self.local(g, 0), d)
            return
        n0 = ns[0] if ns else None
        t0 = tys[0] if tys else None
        l = last(name or "?")
        e0 = self.elem(t0)
        K = lambda n, k: G.kid(n, k) if n is not None else None
        if n0 is None and l not in ("new", "from_elem", "min", "max", "saturating_sub", "saturating_add", "once", "repeat", "empty"):
            return
        if l in ("clone", "cloned", "copied", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "to_owned", "to_vec", "as_slice", "as_mut_slice", "as_str", "into", "from", "by_ref",
                 "as_deref", "as_deref_mut", "take", "into_boxed_slice", "into_vec", "peekable", "rev", "into_inner", "to_string", "inspect", "fuse", "as_mut_str", "into_string", "branch", "from_output",
                 "from_residual", "map_err", "ok_or", "ok_or_else", "to_ascii_lowercase") and not (l == "take" and len(ns) == 2):
            if l == "branch":
                for s in ("Some", "Ok"):
                    J(K(K(n0, ".%s.0" % s), ""), K(K(d, ".Continue.0"), ""))
                    J(K(n0, ".%s.0" % s), K(d, ".Continue.0"))
                return
            if l in ("from_residual",):
                return
            if l in ("ok_or", "ok_or_else"):
                J(K(n0, ".Some.0"), K(d, ".Ok.0"))
                return
            if l == "map_err":
                J(K(n0, ".Ok.0"), K(d, ".Ok.0"))
                return
            if l in ("into", "from") and t0 is not None and self.P.tstr(self.P.peel(t0)) == "char":
                return
            if l == "peekable":
                self.space(f, n0, t0, loc)
            if l == "as_str" and e0 != "str":
                return
            J(n0, d)
        elif l == "into_iter" or l in ("iter", "iter_mut", "drain", "into_values"):
            if self.is_range(t0):
                ends = self.range_ends(n0)
                J(ends[0], ends[1])
                J(K(d, "~"), ends[0])
                J(K(d, "#"), ends[0])
            elif e0 or l != "into_iter":
                J(K(n0, "[]"), K(d, "~"))
                J(self.space(f, n0, t0, loc), K(d, "#"))
            else:
                J(n0, d)
                J(K(n0, "[]"), K(n0, "~"))
        elif l in ("next", "next_back", "last", "peek", "nth", "first", "last_mut", "first_mut", "pop", "min", "max", "nth_back", "min_by_key", "max_by_key", "min_by", "max_by", "reduce") and l not in ("min", "max") or l in ("min", "max") and len(ns) == 1:
            if self.is_range(t0):
                ends = self.range_ends(n0)
                J(ends[0], ends[1])
                J(K(d, ".Some.0"), ends[0])
            else:
                if t0 is not None and self.P.tstr(self.P.peel(t0)).startswith("std::str::CharIndices"):
                    G.seed(K(K(n0, "~"), ".0"), BYTES, loc, "offset given by char_indices")
                J(K(d, ".Some.0"), K(n0, "[]") if e0 and e0 != "str" else K(n0, "~"))
                if l in ("nth", "nth_back"):
                    J(self.space(f, n0, t0, loc), ns[1])
        elif l in ("min", "max", "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub", "clamp", "abs_diff") or l in ("sub", "add", "add_assign", "sub_assign") and t0 is not None and self.P.tstr(self.P.peel(t0)) in INT:
            ti = [x for x in tys if x is not None]
            if ti and self.P.tstr(self.P.peel(ti[0])) in INT:
                for x in ns:
                    J(d if not l.endswith("_assign") else n0, x)
                if l in ("saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub"):
                    c = [a for a, n in zip(args, ns) if n is None]
                    if c and c[0].get("v") not in (0, None):
                        self.uses.append((d, "shifted by the constant %s" % c[0].get("v"), loc, f))
        elif l in ("checked_sub", "checked_add"):
            for x in ns:
                J(K(d, ".Some.0"), x)
            c = [a for a, n in zip(args, ns) if n is None]
            if c and c[0].get("v") not in (0, None):
                self.uses.append((K(d, ".Some.0"), "shifted by the constant %s" % c[0].get("v"), loc, f))
        elif l in ("cmp", "partial_cmp", "lt", "le", "gt", "ge", "eq", "ne"):
            if t0 is not None and self.P.tstr(self.P.peel(t0)) in INT and len(ns) == 2:
                J(n0, ns[1])
        elif l == "len" and len(ns) == 1:
            if self.is_range(t0):
                J(d, self.range_ends(n0)[0])
            else:
                J(d, self.space(f, n0, t0, loc))
        elif l in ("len_utf8",):
            G.seed(d, BYTES, loc, "len_utf8 of a character")
        elif l == "count" and "Iterator" in name:
            J(d, self.space(f, n0, t0, loc))
        elif l == "chars":
            G.seed(K(d, "#"), CHARS, loc, "number of characters")
        elif l == "char_indices":
            G.seed(K(d, "#"), CHARS, loc, "number of characters")
            G.seed(K(K(d, "~"), ".0"), BYTES, loc, "offset given by char_indices")
        elif l in ("bytes", "as_bytes", "into_bytes"):
            G.seed(K(d, "#"), BYTES, loc, "number of bytes")
        elif l in ("find", "rfind") and e0 == "str":
            G.seed(K(d, ".Some.0"), BYTES, loc, "offset given by find")
        elif l in ("match_indices", "rmatch_indices"):
            G.seed(K(K(d, "~"), ".0"), BYTES, loc, "offset given by match_indices")
        elif l in ("split_at", "is_char_boundary", "split_off", "truncate", "insert", "remove", "insert_str", "swap_remove", "resize", "split_at_checked") and len(ns) > 1 and (e0 is not None):
            J(self.space(f, n0, t0, loc), ns[1])
            if l == "insert" and e0 != "str" and len(ns) > 2:
                J(K(n0, "[]"), ns[2])
            if l in ("remove", "swap_remove") and e0 != "str":
                J(d, K(n0, "[]"))
        elif l in ("index", "index_mut", "get", "get_mut", "get_unchecked") and len(ns) > 1 and e0 is not None:
            sp = self.space(f, n0, t0, loc)
            if self.is_range(tys[1]):
                if ns[1] is not None:
                    for x in list(G.kids[G.root(ns[1])]):
                        if x.startswith(".Range"):
                            J(sp, K(ns[1], x))
                            if e0 == "str":
                                G.seed(K(ns[1], x), BYTES, loc, "slice")
                r = d if l.startswith("index") else K(d, ".Some.0")
                if e0 != "str":
                    J(r, n0)
            else:
                J(sp, ns[1])
                J(d if l.startswith("index") else K(d, ".Some.0"), K(n0, "[]"))
        elif l == "enumerate":
            J(K(K(d, "~"), ".0"), self.space(f, n0, t0, loc))
            J(K(K(d, "~"), ".1"), K(n0, "~"))
            J(K(d, "#"), K(n0, "#"))
        elif l in ("skip", "take", "step_by") and len(ns) == 2:
            J(self.space(f, n0, t0, loc), ns[1])
            J(d, n0)
        elif l in ("filter", "skip_while", "take_while", "map_while", "filter_map", "flat_map", "map", "for_each", "any", "all", "position", "find", "find_map", "partition", "flatten", "is_some_and", "is_none_or",
                   "unwrap_or_else", "and_then", "sort_by_key", "retain", "rposition", "then", "map_or", "map_or_else", "or_else"):
            opt = t0 is not None and self.P.tstr(self.P.peel(t0)).startswith(("std::option::Option", "std::result::Result"))
            if opt:
                v = K(n0, ".Some.0" if "Option" in self.P.tstr(self.P.peel(t0)) else ".Ok.0")
                r = self.apply(f, args[-1], [v], loc) if l not in ("unwrap_or_else", "or_else") else self.apply(f, args[-1], [], loc)
                if r is not None:
                    if l == "map":
                        J(K(d, ".Some.0" if "Option" in self.P.tstr(self.P.peel(t0)) else ".Ok.0"), r)
                    elif l in ("and_then", "or_else"):
                        J(d, r)
                    elif l in ("map_or", "map_or_else"):
                        J(d, r)
                    elif l == "unwrap_or_else":
                        J(d, r)
                if l == "unwrap_or_else":
                    J(d, v)
                if l in ("filter", "or_else"):
                    J(d, n0)
                if l == "map_or":
                    J(d, ns[1])
                return
            if self.is_range(t0):
                ends = self.range_ends(n0)
                J(ends[0], ends[1])
                item, sp = ends[0], ends[0]
            else:
                item, sp = K(n0, "~"), self.space(f, n0, t0, loc)
                if l in ("sort_by_key", "retain"):
                    item = K(n0, "[]")
            r = self.apply(f, args[-1], [item], loc) if len(args) > 1 else None
            if l in ("filter", "skip_while", "take_while"):
                J(K(d, "~"), item)
                if l == "take_while":
                    J(K(d, "#"), sp)
            elif l in ("map", "map_while"):
                J(K(d, "~"), r)
                J(K(d, "#"), sp)
            elif l == "filter_map":
                J(K(d, "~"), K(r, ".Some.0") if r is not None else None)
            elif l == "flat_map":
                J(K(d, "~"), K(r, "~") if r is not None else None)
                J(K(d, "~"), K(r, "[]") if r is not None else None)
            elif l == "flatten":
                J(K(d, "~"), K(item, "[]"))
            elif l in ("position", "rposition"):
                J(K(d, ".Some.0"), sp)
            elif l == "find":
                J(K(d, ".Some.0"), item)
            elif l == "find_map":
                J(d, r)
            elif l == "partition":
                J(K(K(d, ".0"), "[]"), item)
                J(K(K(d, ".1"), "[]"), item)
        elif l == "fold":
            acc = ns[1]
            item = self.range_ends(n0)[0] if self.is_range(t0) else K(n0, "~")
            r = self.apply(f, args[2], [d, item], loc)
            J(d, acc)
            J(d, r)
        elif l == "sum":
            J(d, K(n0, "~"))
        elif l == "zip":
            J(K(K(d, "~"), ".0"), K(n0, "~"))
            J(K(d, "#"), K(n0, "#"))
            if ns[1] is not None:
                o = ns[1]
                J(K(K(d, "~"), ".1"), K(o, "~"))
                J(K(K(d, "~"), ".1"), K(o, "[]"))
                J(K(o, "#"), K(d, "#"))
        elif l == "chain":
            J(K(d, "~"), K(n0, "~"))
            J(K(d, "~"), K(ns[1], "~") if ns[1] is not None else None)
        elif l == "once":
            J(K(d, "~"), n0)
        elif l == "collect":
            if t0 is not None and self.is_range(t0):
                J(K(d, "[]"), self.range_ends(n0)[0])
            else:
                J(K(d, "[]"), K(n0, "~"))
                td = f.pty(dest)
                if self.elem(td) not in (None, "str", "char"):
                    J(K(d, "#"), K(n0, "#"))
        elif l in ("unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_unchecked"):
            for s in ("Some", "Ok"):
                if t0 is not None and (s == "Some") == ("Option" in self.P.tstr(self.P.peel(t0))):
                    J(d, K(n0, ".%s.0" % s))
            if l == "unwrap_or":
                J(d, ns[1])
        elif l in ("get_or_insert", "insert", "replace") and len(ns) == 2 and t0 is not None and self.P.tstr(self.P.peel(t0)).startswith("std::option::Option"):
            J(K(n0, ".Some.0"), ns[1])
            J(d, K(n0, ".Some.0") if l != "replace" else None)
        elif l in ("ok",):
            J(K(d, ".Some.0"), K(n0, ".Ok.0"))
        elif l == "insert" and len(ns) == 2:
            J(K(n0, "[]"), ns[1])
        elif l in ("push", "push_back"):
            if len(ns) > 1:
                J(K(n0, "[]"), ns[1])
        elif l in ("extend", "append", "extend_from_slice"):
            if len(ns) > 1 and ns[1] is not None:
                J(K(n0, "[]"), K(ns[1], "~"))
                J(K(n0, "[]"), K(ns[1], "[]"))
        elif l == "from_elem" and len(ns) == 2:
            J(K(d, "[]"), n0)
            J(self.space(f, d, f.pty(dest), loc), ns[1])
        elif l == "new" and "RangeInclusive" in name:
            J(K(d, ".Range.0"), n0)
            J(K(d, ".Range.1"), ns[1] if len(ns) > 1 else None)
            J(K(d, ".Range.0"), K(d, ".Range.1"))
        elif l in ("contains",) and self.is_range(t0):
            J(self.range_ends(n0)[0], ns[1] if len(ns) > 1 else None)
            J(*self.range_ends(n0))


def run(rep, L, B):
    rep.parts([library, program], L, B)


def library(rep, L, B):
    return units(rep, L)


def program(rep, L, B):
    return units(rep, B)


def units(rep, P):
    U = Units(P, lambda f: f.derived)
    G = U.G
    by = {}
    for n, u, loc, what in G.seeds:
        by.setdefault(G.root(n), {}).setdefault(u, []).append((n, loc, what))
    places = {}
    for r, us in sorted(by.items()):
        for u, ss in us.items():
            places[u] = places.get(u, 0) + len(ss)
        if len(us) > 1:
            (u1, s1), (u2, s2) = sorted(us.items())[:2]
            best = None
            for a in s1[:40]:
                for b in s2[:40]:
                    p = G.path(a[0], b[0])
                    if best is None or len(p) < len(best[2]):
                        best = (a, b, p)
            a, b, p = best
            at = p[len(p) // 2] if p else a[1]
            k = "%s and %s" % (u1, u2)
            rep.bad("units", k + " " + a[1].split(":")[0] + " " + b[1].split(":")[0], at,
                    "%s (%s, %s) and %s (%s, %s) are mixed: %s" % (u1, a[2], a[1], u2, b[2], b[1], " -> ".join(p)))
        else:
            rep.ok("units", "class %d" % r)
    fielded = {G.root(n) for k, n in U.globals.items() if k[0] == "field"}
    for n, what, loc, f in U.uses:
        us = by.get(G.root(n), {})
        ss = us.get(BYTES, ())
        if len(us) == 1 and ss and (not what.startswith("shifted") or G.root(n) in fielded or any(x[2] == "slice" for x in ss)):
            rep.bad("byte offsets", "%s in %s" % (what, f.path.split("::")[-1]), loc, "an offset in bytes (%s, %s) is %s" % (us[BYTES][0][2], us[BYTES][0][1], what))
        else:
            rep.ok("byte offsets", "%s %s" % (loc, what))
    for u, x in places.items():
        rep.count("places that fix the unit " + u, x)
    for k, v in U.n.items():
        rep.count(k, v)
    fields = {}
    for k, n in U.globals.items():
        if k[0] == "field":
            us = by.get(G.root(n), {})
            if len(us) == 1:
                fields["%s.%s" % (k[1].split("::")[-1], k[2])] = list(us)[0]
    rep.count("fields with a unit", len(fields))
    import os
    if os.environ.get("VP_DEBUG"):
        print(fields)
    return 0
