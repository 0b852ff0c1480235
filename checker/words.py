"""Decision trees over predicate facts.

The path-splitting dataflow gives every path of a function with its guards in the order they were met.  Here the paths become a
decision tree whose guards are read as facts about an unnamed input: how long a word is, which character is in which set, which
optional parts a value has.  No fact is given a value that a guard did not ask for, or that the specified rule did not ask for;
a leaf of the tree is compared with what the rule says under the same facts.
"""
import os
import time

import flow
from terms import last
from truth import CMP, NAMES

NONE = ("none",)
UNIT = ("unit",)


class Infeasible(Exception):
    """the guards of this path cannot hold together, or the path runs past the bound"""


class Enough(Exception):
    """one difference is found"""


class Panic(Infeasible):
    """the program would end here"""


PANICS = None   # a list: only the ends of the program count, not the results (C01)
MAX = 3     # characters in a text; four in the thorough tier


class Undecided(Exception):
    pass


class World:
    """facts, forked when they are first asked for"""

    def __init__(self, script):
        self.script, self.doms, self.facts, self.deny = script, [], {}, ()
        self.share = None       # (number of this process, of all, questions that decide whose case it is)

    def ask(self, key, dom):
        if any(isinstance(k, str) and k.startswith("@") or isinstance(k, tuple) and k[0] == "obj" and k[1].startswith("@") for k in key):
            raise Undecided("reads a borrowed place")
        if key in self.facts:
            return self.facts[key]
        dom = [d for d in dom if not any(r(self, key, d) for r in self.deny)]
        if not dom:
            raise Infeasible()
        k = len(self.doms)
        if k == len(self.script):
            self.script.append(0)
        self.doms.append(len(dom))
        v = dom[self.script[k]]
        self.facts[key] = v
        if self.share and k + 1 == self.share[2] and sum(x * (2 * i + 1) for i, x in enumerate(self.script[:k + 1])) % self.share[1] != self.share[0]:
            raise Infeasible()
        return v

    def mine(self):
        return not self.share or len(self.doms) >= self.share[2] or self.share[0] == 0

    def known(self, key):
        return self.facts.get(key)

    # -- the vocabulary
    def length(self, word, upto):
        return self.ask(("len", word), range(upto + 1))

    def member(self, s, c):
        if self.facts.get(("empty", s)):
            return False
        return self.ask(("in", s, c), (True, False))

    def empty(self, s):
        if any(k[0] == "in" and k[1] == s and v for k, v in self.facts.items()):
            return False
        return self.ask(("empty", s), (True, False))

    def has(self, o):
        return self.ask(("some", o), (True, False))

    def flag(self, o):
        return self.ask(("flag", o), (True, False))


def worlds(run, limit=400000, deny=(), share=None):
    """run(world) for every way to answer the questions it asks"""
    script, n = [], 0
    while True:
        w = World(list(script))
        w.deny, w.share = deny, share
        try:
            run(w)
        except Infeasible:
            pass
        n += 1
        if n > limit:
            raise Undecided("more than %d cases" % limit)
        script = w.script[:len(w.doms)]
        while script and script[-1] + 1 >= w.doms[len(script) - 1]:
            script.pop()
        if not script:
            return n
        script[-1] += 1


class Node:
    __slots__ = ("term", "kids", "leaf")

    def __init__(self):
        self.term, self.kids, self.leaf = None, [], None


def tree(paths):
    """guards in the order met; paths that share a prefix of guards share its nodes"""
    root = Node()
    for p in paths:
        n = root
        for c, v in p.conds.items():
            if n.leaf is not None and not n.leaf.trunc:
                raise Undecided("paths without a guard between them")
            n.leaf = None
            if n.term is None:
                n.term = c
            if n.term != c:
                raise Undecided("guards met in different orders")
            for v2, k in n.kids:
                if v2 == v:
                    n = k
                    break
            else:
                k = Node()
                n.kids.append((v, k))
                n = k
        if p.trunc:
            if n.term is None and n.leaf is None:
                n.leaf = p
        elif n.term is not None or n.leaf is not None and not n.leaf.trunc:
            raise Undecided("two paths under the same guards")
        else:
            n.leaf = p
    return root


class Endless(Undecided):
    pass


class Guided(flow.Flow):
    """follows only the path whose guards hold under the world's facts; for functions with too many paths to list"""

    leaf = None

    def beyond(self, fn):
        raise Endless("%s goes round more than %d times" % (fn.path, self.loop_bound))

    def split(self, fn, fid, t, st):
        alts = super().split(fn, fid, t, st)
        if len(alts) < 2:
            return alts
        kids = []
        term = None
        for b, ns in alts:
            new = [(k, v) for k, v in ns.conds.items() if st.conds.get(k) != v]
            if len(new) != 1 or term is not None and new[0][0] != term:
                raise Undecided("guards")
            term = new[0][0]
            kids.append((new[0][1], None))
        self.leaf.now = st.events
        v = self.leaf.guard(term, [w for w, _ in kids])
        hits = [i for i, (want, _) in enumerate(kids) if want[0] == "=" and v == want[1] or want[0] == "!=" and v not in want[1]]
        if len(hits) != 1:
            raise Undecided("%d paths for %r" % (len(hits), v))
        return [alts[hits[0]]]


class Reader:
    """reads functions of a program as decision trees"""

    def __init__(self, P, bound=None, inline_pred=None, max_paths=2000, calls=None, outs=None, opaque=(), maxlen=None, deny=(), maxint=3, bounds=None, guide=()):
        self.bytes = False      # texts are sliced by byte positions
        self.P, self.bound, self.maxlen, self.maxint = P, bound or MAX, maxlen or MAX, maxint
        self.calls = calls or {}        # name -> f(leaf, args) -> value: what a function is specified to give
        self.outs = outs or {}          # name -> (index of the list it adds to, f(leaf, args, list))
        self.inline_pred, self.max_paths, self.opaque = inline_pred, max_paths, opaque
        self.deny = deny
        self.bounds = bounds or {}
        self.rename = {}
        self.ints = {}
        self.guide = guide      # functions followed under the facts of one world at a time
        self.jobs = 1
        self.seconds = 240
        self.ends = False       # a function that goes round without end under the facts of a world is wrong
        self.cache = {}
        self.leaves = 0

    def tree(self, path, ncaps=None):
        key = (path, ncaps)
        if key not in self.cache:
            f = self.P.fns.get(path)
            if f is None:
                raise Undecided("no body: " + path)
            fl = flow.Flow(self.P, loop_bound=self.bounds.get(last(path), self.bound), inline_pred=self.inline_pred, max_paths=self.max_paths, opaque=self.opaque)
            args = None
            if ncaps is not None:
                args = [("closure", path, tuple(("cap", i) for i in range(ncaps)))] + [("arg", i) for i in range(2, f.argc + 1)]
            try:
                self.cache[key] = tree(fl.paths(f, args))
            except (flow.FlowLimit, Undecided) as e:
                self.cache[key] = Undecided(str(e))
        if isinstance(self.cache[key], Exception):
            raise self.cache[key]
        return self.cache[key]

    def run(self, world, path, env, ncaps=None):
        """(leaf, reader of its terms) for these arguments under the world's facts"""
        lf = Leaf(self, world, env)
        if any(path.endswith(g) for g in self.guide):
            return self.guided(lf, path, ncaps)
        try:
            n = self.tree(path, ncaps)
        except Undecided:
            return self.guided(lf, path, ncaps)
        while n.term is not None:
            m = n
            while m.leaf is None:
                m = m.kids[0][1]
            lf.now = m.leaf.events      # every path below this node made the same calls up to here
            v = lf.guard(n.term, [w for w, _ in n.kids])
            hits = [kid for want, kid in n.kids if want[0] == "=" and v == want[1] or want[0] == "!=" and v not in want[1]]
            if len(hits) != 1:
                raise Undecided("%d paths for %r" % (len(hits), v))
            n = hits[0]
        return self.at_end(lf, n.leaf)

    def at_end(self, lf, p):
        if p is None or p.trunc:
            raise Infeasible()
        if p.div:
            raise Undecided("diverges")
        lf.path, lf.now = p, p.events
        return lf

    def guided(self, lf, path, ncaps):
        f = self.P.fns.get(path)
        if f is None:
            raise Undecided("no body: " + path)
        # one path only: going round once more costs nothing
        fl = Guided(self.P, loop_bound=max(self.bounds.get(last(path), self.bound), 8 * self.maxlen + 16), inline_pred=self.inline_pred, opaque=self.opaque)
        fl.leaf = lf
        args = None
        if ncaps is not None:
            args = [("closure", path, tuple(("cap", i) for i in range(ncaps)))] + [("arg", i) for i in range(2, f.argc + 1)]
        ps = fl.paths(f, args)
        if len(ps) != 1:
            raise Infeasible() if not ps else Undecided("%d paths" % len(ps))
        return self.at_end(lf, ps[0])

    def value(self, world, path, args, caps=None):
        env = {("arg", i + 1 if caps is None else i + 2): a for i, a in enumerate(args)}
        if caps is not None:
            env.update({("cap", i): c for i, c in enumerate(caps)})
        lf = self.run(world, path, env, None if caps is None else len(caps))
        self.effects(lf)
        return lf.val(lf.path.ret)

    def effects(self, lf):
        for e in lf.path.events:
            if e[0] == "store":
                raise Undecided("store in a helper")
            if e[1] and isinstance(e[1][0], tuple) and last(e[0]) in MUTATORS and e[1][0][0] == "arg":
                raise Undecided("effect in a helper")


ORDER = {"Less": -1, "Equal": 0, "Greater": 1}
CHANGES = ("push", "push_back", "push_front", "insert", "insert_all", "remove", "remove_all", "extend", "push_str", "clear", "pop", "truncate", "append", "bitor_assign", "sub_assign", "bitand_assign",
           "add_assign", "bitxor_assign", "retain", "toggle", "replace", "take", "swap", "set", "drain", "sort", "reverse", "dedup", "fill", "get_or_insert", "get_or_insert_with")
MUTATORS = ("push", "insert", "extend", "push_str", "remove", "clear", "pop", "truncate", "append")
CONV = {"+": True, "Some": True, "Ok": True, "Continue": True, "-": False, "None": False, "Err": False, "Break": False}


class Leaf:
    """values of the terms of one path under the world's facts"""

    def __init__(self, reader, world, env):
        self.r, self.w, self.env = reader, world, env
        self.memo = {}
        self.mark = None        # a borrowed sequence whose elements are followed by name
        self.path, self.now = None, ()
        self.ev, self.evof = {}, None

    # -- guards
    def guard(self, t, wants):
        if t[0] == "discr":
            v = self.val(t[1])
            names = set()
            for want in wants:
                names |= {want[1]} if want[0] == "=" else set(want[1])
            if v[0] in ("none", "some"):
                yes = v[0] == "some"
            elif v[0] == "obj":
                if names <= set(CONV):
                    yes = self.w.has(v[1])
                else:
                    return self.w.ask(("variant", v[1]), self.variants(v[1], names))
            elif v[0] == "var":
                return v[1]
            elif v[0] == "seq" and names <= set(CONV) and all(isinstance(x, tuple) and x[0] in ("some", "none") for x in v[1]):
                yes = all(x[0] == "some" for x in v[1])     # collected into an option or a result
            else:
                raise Undecided("variant of " + str(v[0]))
            for n in names:
                if n in CONV and CONV[n] == yes:
                    return n
            return "+" if yes else "-"
        v = self.val(t)
        if isinstance(v, tuple) and v[0] == "obj":
            return int(self.w.flag(v[1]))
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        raise Undecided("guard value " + str(v)[:80])

    def variants(self, key, names):
        raise Undecided("variants of " + key)

    def events_of(self, uid):
        if self.evof is not self.now or uid not in self.ev:
            self.ev, self.evof = {e[2]: e for e in self.now}, self.now
        return self.ev[uid]

    def event_list(self):
        return self.now

    def val(self, t):
        k = id(t)
        m = self.memo.get(k)
        if m is not None and m[0] is t:
            return m[1]
        v = self._val(t)
        self.memo[k] = (t, v)
        return v

    def num(self, v):
        if isinstance(v, tuple) and v[0] == "obj":
            return self.w.ask(("int", v[1]), next((d for k, d in self.r.ints.items() if v[1].endswith(k)), range(self.r.maxint + 1)))
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, tuple) and v[0] == "byte":     # characters of a text may take one byte each, or two
            return v[2] * self.wide(v[1]) if v[2] else 0
        if isinstance(v, tuple) and v[0] == "width":
            return self.wide(v[1])
        raise Undecided("number " + str(v)[:60])

    def wide(self, word):
        return self.w.ask(("bytes of a character", word), (1, 2))

    def truth(self, v):
        if isinstance(v, tuple) and v[0] == "obj":
            return self.w.flag(v[1])
        if isinstance(v, (bool, int)):
            return bool(v)
        raise Undecided("truth of " + str(v)[:60])

    def isopt(self, v):
        """is this optional value there?"""
        if v[0] == "obj":
            return self.w.has(v[1])
        if v[0] in ("some", "none"):
            return v[0] == "some"
        raise Undecided("option " + str(v)[:60])

    def inner(self, v):
        if v[0] == "obj":
            if not self.w.has(v[1]):
                raise Infeasible()
            return v
        if v[0] == "some":
            return v[1]
        if v[0] == "none":
            raise Infeasible()
        raise Undecided("payload of " + str(v)[:60])

    def seq(self, v):
        if isinstance(v, tuple) and v[0] == "seq":
            return list(v[1])
        if isinstance(v, tuple) and v[0] == "var" and v[1] == "Range":
            d = dict(v[2])
            return list(range(self.num(d["start"]), self.num(d["end"])))
        if isinstance(v, tuple) and v[0] == "word":
            return [("chr", v[1], i) for i in range(v[2], self.w.length(v[1], self.r.maxlen))]
        if isinstance(v, tuple) and v[0] in ("some", "none"):
            return [v[1]] if v[0] == "some" else []
        if v == ("default",):
            return []
        raise Undecided("sequence " + str(v)[:60])

    def call_fn(self, fn, args):
        """value of calling a closure or function value"""
        if fn[0] == "clo":
            return self.r.value(self.w, fn[1], args, fn[2])
        if fn[0] == "fnv":
            if fn[1] in self.r.P.fns:
                return self.named(fn[1], args)
            n = last(fn[1])
            if n in ("Some", "Ok"):
                return ("some", args[0])
            return self.builtin(n, fn[1], args)
        if fn[0] == "pred":             # an unnamed predicate
            return self.w.member(fn[1], args[0])
        if fn[0] == "obj":
            return self.w.member(fn[1], tuple(args) if len(args) > 1 else args[0])
        raise Undecided("called " + str(fn)[:60])

    def named(self, name, args):
        for k, f in self.r.calls.items():
            if name.endswith(k):
                return f(self, args)
        if name in self.r.P.fns:
            return self.r.value(self.w, name, args)
        raise Undecided("call of " + name)

    def _val(self, t):
        k = t[0]
        if t in self.env:
            return self.env[t]
        if k == "const":
            return t[1]
        if k == "val":
            return t[1]
        if k == "str":
            return ("text", t[1])
        if k == "char":
            return ("lit", t[1])
        if k == "fn":
            return ("fnv", t[1])
        if k == "closure":
            return ("clo", t[1], tuple(self.val(c) for c in t[2]))
        if k == "tuple":
            return ("tup", tuple(self.val(x) for x in t[1]))
        if k == "array":
            return ("seq", tuple(self.val(x) for x in t[1]))
        if k == "agg":
            if t[1].startswith("std::option") or t[1].startswith("std::result"):
                return ("some", self.val(t[4][0])) if t[2] in ("Some", "Ok") else NONE
            return ("var", t[2], tuple((n, self.val(x)) for n, x in zip(t[3], t[4])))
        if k == "set":
            names = t[1]
            for x in t[2]:
                v = self.val(x)
                if not (isinstance(v, tuple) and v[0] == "enums"):
                    raise Undecided("open set")
                names = names | v[1]
            return ("enums", names)
        if k == "as":
            return self.val(t[1])
        if k == "fld":
            return self.field(t)
        if k == "bin":
            return self.binary(t)
        if k == "un" and t[1] == "Not":
            return not self.truth(self.val(t[2]))
        if k == "isv":
            v = self.val(t[1])
            return self.isopt(v) == (t[2] in ("Some", "Ok"))
        if k == "cast":
            return self.val(t[2])
        if k == "index":
            return self.at(self.val(t[1]), self.val(t[2]) if t[2][0] != "fromend" else -t[2][1])
        if k == "repeat":
            raise Undecided("repeat")
        if k == "map":
            v = self.val(t[1])
            return ("some", self.call_fn(self.val(t[2]), [self.inner(v)])) if self.isopt(v) else NONE
        if k == "app":
            return self.call_fn(self.val(t[1]), [self.val(t[2])])
        if k == "okor":
            return self.val(t[1])
        if k == "ok":
            return self.val(t[1])
        if k == "maperr":
            return self.val(t[1])
        if k == "ordefault":
            v = self.val(t[1])
            if self.isopt(v):
                return self.inner(v)
            return ("default",)
        if k == "orelse":
            v = self.val(t[1])
            if self.isopt(v):
                return self.inner(v)
            d = self.val(t[2])
            return self.call_fn(d, []) if isinstance(d, tuple) and d[0] in ("clo", "fnv") else d
        if k == "default":
            return ("seq", ()) if "Vec" in t[1] or "HashSet" in t[1] or "BTreeSet" in t[1] else ("default",)
        if k == "fmt":
            return self.text(t)
        if k == "call":
            return self.call(t)
        if k == "mut":
            return self.mutated(t)
        if k == "upd":
            return self.updated(t)
        raise Undecided("term " + k)

    def text(self, t):
        """the characters of formatted text"""
        out = []
        for x in t[1]:
            if isinstance(x, str):
                if x == "?":
                    raise Undecided("format")
                out += [("lit", c) for c in x]
            elif t[2][x][0] == "fmtarg" and t[2][x][1] == "new_display":
                v = self.val(t[2][x][2])
                out += [v] if isinstance(v, tuple) and v[0] in ("chr", "lit") else self.seq(v)
            else:
                raise Undecided("format")
        return ("seq", tuple(out))

    def field(self, t):
        b, var, name = t[1], t[2], t[3]
        v = self.val(b)
        if isinstance(v, tuple) and var in ("+", "Some", "Ok", "Continue") and v[0] in ("some", "none", "obj"):
            if v[0] == "obj" and var in ("+", "Some", "Ok") and name == "0":
                return self.inner(v)
            return self.inner(v)
        if isinstance(v, tuple) and v[0] == "seq" and var in ("+", "Some", "Ok", "Continue") and t[1][0] == "call" and last(t[1][1]) == "collect":
            return ("seq", tuple(self.inner(x) for x in v[1]))
        if not isinstance(v, tuple):
            raise Undecided("field of a number")
        if v[0] == "tup":
            return v[1][int(name)]
        if v[0] == "default":
            return v
        if v[0] == "var":
            d = dict(v[2])
            if name in d:
                return d[name]
            if name.isdigit() and int(name) < len(v[2]):
                return v[2][int(name)][1]
            raise Infeasible()
        if v[0] == "obj":
            k = v[1] + "." + name
            return ("obj", self.r.rename.get(k, k))
        if v[0] == "with":
            d = {n[0]: x for n, x in v[2] if len(n) == 1}
            if name in d:
                return d[name]
            k = v[1][1] + "." + name
            return ("obj", self.r.rename.get(k, k))
        if v[0] == "clo":
            return v[2][int(name)]
        raise Undecided("field %s of %s" % (name, v[0]))

    def binary(self, t):
        op, a, b = t[1], self.val(t[2]), self.val(t[3])
        if op in ("Eq", "Ne"):
            r = self.equal(a, b)
            return r if op == "Eq" else not r
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = self.truth(a), self.truth(b)
            return x and y if op == "BitAnd" else x or y if op == "BitOr" else x != y
        return self.binary_of(op, a, b)

    def binary_of(self, op, a, b):
        a, b = self.num(a), self.num(b)
        if op in CMP:
            return bool(CMP[op](a, b))
        r = {"Add": a + b, "Sub": a - b, "Mul": a * b}.get(op)
        if r is None and op == "Div" and b:
            r = a // b
        if r is None and op == "Rem" and b:
            r = a % b
        if r is None:
            raise Undecided("operation " + op)
        if r < 0:
            raise Panic("takes more from less")
        return r

    def equal(self, a, b):
        if isinstance(a, (bool, int)) or isinstance(b, (bool, int)):
            if isinstance(a, tuple) or isinstance(b, tuple):
                o, x = (a, b) if isinstance(a, tuple) else (b, a)
                if o[0] == "obj":
                    return (self.w.flag(o[1]) if isinstance(x, bool) else self.num(o)) == x
                raise Undecided("comparison")
            return a == b
        if a == b:
            return True
        if a[0] in ("some", "none") and b[0] in ("some", "none"):
            return a[0] == b[0] and (a[0] == "none" or self.equal(a[1], b[1]))
        if a[0] == "obj" and b[0] in ("text", "lit") or b[0] == "obj" and a[0] in ("text", "lit"):
            o, x = (a, b) if a[0] == "obj" else (b, a)
            return self.w.ask(("is", o[1], x[1]), (True, False))
        if a[0] == "obj" and b[0] == "obj":
            k = sorted((a[1], b[1]))
            return self.w.ask(("same", k[0], k[1]), (True, False))
        if a[0] == "var" and b[0] == "var":
            return a[1] == b[1] and all(self.equal(x[1], y[1]) for x, y in zip(a[2], b[2]))
        if a[0] == b[0] == "tup" or a[0] == b[0] == "seq":
            return len(a[1]) == len(b[1]) and all(self.equal(x, y) for x, y in zip(a[1], b[1]))
        raise Undecided("comparison of %s and %s" % (a[0], b[0]))

    def at(self, v, i):
        if isinstance(i, tuple) and i[0] == "var":
            return self.slice(v, i)
        s = self.seq(v)
        i = self.num(i)
        if not -len(s) <= i < len(s):
            raise Panic("reads past the end")
        return s[i]

    def slice(self, v, r):
        d = dict(r[2])
        if isinstance(v, tuple) and v[0] == "word" and r[1] == "RangeFrom":
            b = d["start"]
            if isinstance(b, tuple) and b[0] == "byte":
                return ("word", v[1], b[2])
            if isinstance(b, tuple) and b[0] == "width" and b[1] == v[1] and b[2] == v[2]:
                return ("word", v[1], v[2] + 1)
            if b == 0 and isinstance(b, int):
                return v
            raise Undecided("bytes")
        if self.r.bytes and any(isinstance(y, tuple) and y[0] == "bix" for y in d.values()):
            if not all(isinstance(y, tuple) and y[0] == "bix" for y in d.values()):
                raise Undecided("bytes")
            d = {k: y[1] for k, y in d.items()}
        s = self.seq(v)
        a = self.num(d["start"]) if "start" in d else 0
        e = len(s)
        if r[1] in ("Range", "RangeTo") and "end" in d:
            e = self.num(d["end"])
        elif r[1].startswith("RangeInclusive") or r[1] == "RangeToInclusive":
            e = self.num(d["end"]) + 1
        if not 0 <= a <= e <= len(s):
            raise Panic("takes a part past the end")
        return ("seq", tuple(s[a:e]))

    # -- calls
    def call(self, t):
        name, args = t[1], t[2]
        for k, f in self.r.calls.items():
            if name.endswith(k):
                return f(self, [self.val(a) for a in args])
        n = last(name)
        if self.mark and len(t) > 3 and t[3] in self.mark:
            uid = t[3]
            return self.builtin(n, name, [("seq", tuple(("obj", "@%d:%d" % (uid, i)) for i in range(self.mark[uid])))] + [self.val(a) for a in args[1:]])
        if name in self.r.P.fns and not self.r.P.fns[name].derived and name.startswith("crate::"):
            return self.r.value(self.w, name, [self.val(a) for a in args])
        return self.builtin(n, name, [self.val(a) for a in args])

    def builtin(self, n, name, a):
        w = self.w
        x = a[0] if a else None
        if n in ("iter", "into_iter", "collect", "iter_mut", "copied", "cloned", "from_iter", "by_ref", "to_vec", "into_boxed_slice", "peekable", "as_slice", "fuse", "drain",
                 "into_vec", "box_assume_init_into_vec_unsafe", "deref", "clone", "as_ref"):
            if n == "drain" and len(a) == 2:
                return self.at(x, a[1]) if a[1][0] == "var" and a[1][1] != "RangeFull" else x
            return x if isinstance(x, tuple) and x[0] in ("seq", "obj", "var") else ("seq", tuple(self.seq(x)))
        if n in ("new", "with_capacity", "default") and ("Vec" in name or "HashSet" in name or "BTreeSet" in name or "String" in name or "HashMap" in name):
            return ("seq", ())
        if n == "chars":
            if x[0] == "obj":
                return ("obj", x[1] + ".chars()")
            return ("seq", tuple(self.seq(x)))
        if n == "char_indices" and self.r.bytes:
            return ("seq", tuple(("tup", (("bix", i), c)) for i, c in enumerate(self.seq(x))))
        if n in ("is_multiple_of",):
            k = self.num(a[1])
            return self.num(x) % k == 0 if k else self.num(x) == 0
        if n == "once":
            return ("seq", (x,))
        if n == "len" and self.r.bytes and ("str::" in name or "String" in name):
            return ("bix", len(self.seq(x)))
        if n == "len" and ("str::" in name or "String" in name):
            s = self.seq(x)
            if s and all(isinstance(c, tuple) and c[0] == "chr" and c[1] == s[0][1] for c in s):
                return len(s) * self.wide(s[0][1])
        if n == "char_indices":
            return ("seq", tuple(("tup", (("byte", c[1], c[2]) if c[2] else 0, c)) for c in self.seq(x)))
        if n == "next":
            s = self.seq(x)
            return ("some", s[0]) if s else NONE
        if n in ("from", "into") and isinstance(x, bool):
            return int(x)
        if n == "len_utf8" and isinstance(x, tuple) and x[0] == "chr":
            return ("width", x[1], x[2])
        if n == "next_back":
            s = self.seq(x)
            return ("some", s[-1]) if s else NONE
        if n == "peek":
            s = self.seq(x)
            return ("some", s[0]) if s else NONE
        if n in ("last", "first", "last_mut", "first_mut"):
            s = self.seq(x)
            return ("some", s[-1 if n.startswith("last") else 0]) if s else NONE
        if n in ("len", "count"):
            if isinstance(x, tuple) and x[0] == "obj":
                if "collections::" in name:         # a set of its own: its size agrees with its emptiness
                    return 0 if w.empty(x[1]) else self.num(x) or 1
                return self.num(x)
            return len(self.seq(x))
        if n == "is_empty":
            if isinstance(x, tuple) and x[0] == "obj":
                return w.empty(x[1])
            if isinstance(x, tuple) and x[0] == "var":
                return not self.seq(x)
            return not self.seq(x)
        if n == "enumerate":
            return ("seq", tuple(("tup", (i, y)) for i, y in enumerate(self.seq(x))))
        if n == "rev":
            return ("seq", tuple(self.seq(x)[::-1]))
        if n == "skip":
            return ("seq", tuple(self.seq(x)[self.num(a[1]):]))
        if n == "take":
            return ("seq", tuple(self.seq(x)[:self.num(a[1])]))
        if n == "zip":
            return ("seq", tuple(("tup", p) for p in zip(self.seq(x), self.seq(a[1]))))
        if n == "chain":
            return ("seq", tuple(self.seq(x) + self.seq(a[1])))
        if n == "windows":
            s, k = self.seq(x), self.num(a[1])
            return ("seq", tuple(("seq", tuple(s[i:i + k])) for i in range(len(s) - k + 1)))
        if n == "map":
            return ("seq", tuple(self.call_fn(a[1], [y]) for y in self.seq(x)))
        if n == "filter":
            return ("seq", tuple(y for y in self.seq(x) if self.truth(self.call_fn(a[1], [y]))))
        if n in ("filter_map", "flat_map"):
            out = []
            for y in self.seq(x):
                r = self.call_fn(a[1], [y])
                if n == "filter_map":
                    if self.isopt(r):
                        out.append(self.inner(r))
                else:
                    out += self.seq(r)
            return ("seq", tuple(out))
        if n == "flatten":
            if isinstance(x, tuple) and x[0] in ("some", "none", "obj"):
                return self.inner(x) if self.isopt(x) else NONE
            out = []
            for y in self.seq(x):
                if isinstance(y, tuple) and y[0] in ("some", "none", "obj"):
                    out += [self.inner(y)] if self.isopt(y) else []
                else:
                    out += self.seq(y)
            return ("seq", tuple(out))
        if n in ("find", "position", "rposition"):
            s = list(enumerate(self.seq(x)))
            for i, y in s[::-1] if n == "rposition" else s:
                if self.truth(self.call_fn(a[1], [y])):
                    return ("some", y if n == "find" else i)
            return NONE
        if n in ("any", "all"):
            for y in self.seq(x):
                if self.truth(self.call_fn(a[1], [y])) == (n == "any"):
                    return n == "any"
            return n == "all"
        if n in ("take_while", "skip_while", "map_while"):
            s = self.seq(x)
            i = 0
            while i < len(s) and self.truth(self.call_fn(a[1], [s[i]])):
                i += 1
            return ("seq", tuple(s[:i] if n == "take_while" else s[i:]))
        if n == "sum":
            return sum(self.num(y) for y in self.seq(x))
        if n == "fold":
            acc = a[1]
            for y in self.seq(x):
                acc = self.call_fn(a[2], [acc, y])
            return acc
        if n in ("is_some_and", "is_none_or"):
            if not self.isopt(x):
                return n == "is_none_or"
            return self.truth(self.call_fn(a[1], [self.inner(x)]))
        if n == "and_then":
            return self.call_fn(a[1], [self.inner(x)]) if self.isopt(x) else NONE
        if n == "map_or":
            return self.call_fn(a[2], [self.inner(x)]) if self.isopt(x) else a[1]
        if n == "map_or_else":
            return self.call_fn(a[2], [self.inner(x)]) if self.isopt(x) else self.call_fn(a[1], [])
        if n == "or":
            return x if self.isopt(x) else a[1]
        if n == "or_else":
            return x if self.isopt(x) else self.call_fn(a[1], [])
        if n == "then" and not (isinstance(x, tuple) and x[0] == "var"):
            return ("some", self.call_fn(a[1], [])) if self.truth(x) else NONE
        if n == "then_some":
            return ("some", a[1]) if self.truth(x) else NONE
        if n in ("cmp", "partial_cmp") and len(a) == 2:
            p, q = self.key(x), self.key(a[1])
            r = ("var", "Less" if p < q else "Greater" if p > q else "Equal", ())
            return ("some", r) if n == "partial_cmp" else r
        if n in ("then", "then_with") and isinstance(x, tuple) and x[0] == "var":
            return x if x[1] != "Equal" else a[1] if n == "then" else self.call_fn(a[1], [])
        if n == "reverse" and isinstance(x, tuple) and x[0] == "var" and x[1] in ORDER:
            return ("var", {"Less": "Greater", "Greater": "Less"}.get(x[1], x[1]), ())
        if n.startswith("is_") and isinstance(x, tuple) and x[0] == "var" and x[1] in ORDER:
            o = ORDER[x[1]]
            r = {"is_eq": o == 0, "is_ne": o != 0, "is_lt": o < 0, "is_le": o <= 0, "is_gt": o > 0, "is_ge": o >= 0}
            if n in r:
                return r[n]
        if n.startswith("is_") and isinstance(x, tuple) and x[0] == "chr" and len(a) == 1 and "char" in name:
            return w.member("char::" + n, x)
        if n == "contains":
            if isinstance(x, tuple) and x[0] == "obj":
                return w.member(x[1], a[1])
            if isinstance(x, tuple) and x[0] == "var":
                d = dict(x[2])
                v = self.num(a[1])
                return d["start"] <= v < d["end"]
            if isinstance(x, tuple) and x[0] == "enums":
                return a[1][1] in x[1]
            return any(self.equal(y, a[1]) for y in self.seq(x))
        if n in ("get", "get_mut"):
            if isinstance(x, tuple) and x[0] == "obj":
                raise Undecided("get of an unnamed map")
            s = self.seq(x)
            if isinstance(a[1], tuple) and a[1][0] == "var":
                try:
                    return ("some", self.slice(x, a[1]))
                except Infeasible:
                    return NONE
            i = self.num(a[1])
            return ("some", s[i]) if i < len(s) else NONE
        if n in ("index", "index_mut"):
            return self.at(x, a[1])
        if n == "starts_with":
            s, p = self.seq(x), a[1]
            if isinstance(p, tuple) and p[0] == "obj":
                return w.ask(("prefix", p[1], len(s) and s[0] or 0), (True, False))
            p = self.seq(p)
            return len(p) <= len(s) and all(self.equal(y, z) for y, z in zip(s, p))
        if n == "from_elem":
            return ("seq", (a[0],) * self.num(a[1]))
        if n in ("min", "max"):
            if len(a) == 2:
                return {"min": min, "max": max}[n](self.num(x), self.num(a[1]))
            s = [self.num(y) for y in self.seq(x)]
            return ("some", {"min": min, "max": max}[n](s)) if s else NONE
        if n in ("saturating_sub", "checked_sub"):
            d = self.num(x) - self.num(a[1])
            if n == "checked_sub":
                return ("some", d) if d >= 0 else NONE
            return max(0, d)
        if n in ("sub", "mul"):
            return self.binary_of({"sub": "Sub", "mul": "Mul"}[n], x, a[1])
        if n in ("saturating_add", "wrapping_add", "add"):
            return self.num(x) + self.num(a[1])
        if n in NAMES:
            if n in ("eq", "ne"):
                r = self.equal(x, a[1])
                return r if n == "eq" else not r
            return bool(CMP[NAMES[n]](self.num(x), self.num(a[1])))
        if n == "unwrap_or":
            return self.inner(x) if self.isopt(x) else a[1]
        if n in ("call", "call_mut", "call_once"):
            return self.call_fn(x, list(a[1][1]))
        if n == "split_at":
            s, i = self.seq(x), self.num(a[1])
            return ("tup", (("seq", tuple(s[:i])), ("seq", tuple(s[i:]))))
        if n == "new" and "RangeInclusive" in name:
            return ("var", "Range", (("start", self.num(x)), ("end", self.num(a[1]) + 1)))
        if n == "?indirect":
            return self.call_fn(x, a[1:])
        raise Undecided("call of " + n)

    def key(self, v):
        """what a sort compares"""
        if isinstance(v, tuple) and v[0] == "tup":
            return tuple(self.key(x) for x in v[1])
        if isinstance(v, tuple) and v[0] == "var" and v[1] == "Reverse":
            k = self.key(v[2][0][1])
            return tuple(-x for x in k) if isinstance(k, tuple) else -k
        return self.num(v)

    def order(self, v):
        if isinstance(v, tuple) and v[0] == "var" and v[1] in ORDER:
            return ORDER[v[1]]
        raise Undecided("order")

    def mutated(self, t):
        uid, name, old = t[1], t[2], t[3]
        n = last(name)
        e = self.events_of(uid)
        args = e[1]
        for k, (i, f) in self.r.outs.items():
            if name.endswith(k):
                out = self.seq(self.val(old))
                f(self, [self.val(a) if j != i else None for j, a in enumerate(args)], out)
                return ("seq", tuple(out))
        if n in ("next", "peek"):
            s = self.seq(self.val(old))
            return ("seq", tuple(s[1:])) if n == "next" else ("seq", tuple(s))
        if n == "next_back":
            return ("seq", tuple(self.seq(self.val(old))[:-1]))
        if n in ("nth",):
            return ("seq", tuple(self.seq(self.val(old))[self.num(self.val(args[1])) + 1:]))
        if n in ("push", "push_back"):
            return ("seq", tuple(self.seq(self.val(old)) + [self.val(args[1])]))
        if n in ("extend", "append", "extend_from_slice"):
            return ("seq", tuple(self.seq(self.val(old)) + self.seq(self.val(args[1]))))
        if n == "insert" and len(args) == 2:
            s = self.seq(self.val(old))
            x = self.val(args[1])
            return ("seq", tuple(s if x in s else s + [x]))
        if n == "insert" and len(args) == 3 and "Map" in name:
            k = self.val(args[1])
            return ("seq", tuple([x for x in self.seq(self.val(old)) if x[1][0] != k] + [("tup", (k, self.val(args[2])))]))
        if n == "clear":
            return ("seq", ())
        if n == "pop":
            return ("seq", tuple(self.seq(self.val(old))[:-1]))
        if n == "truncate":
            return ("seq", tuple(self.seq(self.val(old))[:self.num(self.val(args[1]))]))
        if n in ("reserve", "shrink_to_fit"):
            return self.val(old)
        if n == "reverse":
            return ("seq", tuple(self.seq(self.val(old))[::-1]))
        if n in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
            s = self.seq(self.val(old))
            fn = self.val(args[1])
            return ("seq", tuple(sorted(s, key=lambda y: self.key(self.call_fn(fn, [y])))))
        if n in ("sort_by", "sort_unstable_by"):
            import functools
            fn = self.val(args[1])
            return ("seq", tuple(sorted(self.seq(self.val(old)), key=functools.cmp_to_key(lambda x, y: self.order(self.call_fn(fn, [x, y]))))))
        if n in ("sort", "sort_unstable"):
            return ("seq", tuple(sorted(self.num(y) for y in self.seq(self.val(old)))))
        if n in ("iter_mut", "index_mut", "get_mut", "last_mut", "first_mut"):
            return self.stored(t, self.val(old), ("call", name, args, uid))
        if n in ("any", "all", "find", "position"):
            raise Undecided("rest after " + n)
        raise Undecided("changed by " + n)

    def stored(self, t, old, place):
        """the sequence after what was stored through places borrowed from it"""
        s = self.seq(old)
        uid = place[3]
        sub = None
        for e in self.event_list():
            if not e[1] or not isinstance(e[1][0], tuple) or e[2] == uid:
                continue
            n = last(e[0])
            q = e[1][0]
            if not any(x[0] == "call" and len(x) > 3 and x[3] == uid for x in flow.walk(q)):
                continue
            if n in ("for_each", "try_for_each", "fold", "map", "inspect", "scan"):
                raise Undecided("changes in " + n)
            if n not in CHANGES and e[0] != "store":
                continue
            if sub is None:
                sub = Leaf(self.r, self.w, self.env)
                sub.path, sub.now, sub.mark = self.path, self.now, {uid: len(s)}
            v = sub.val(q)
            if isinstance(v, tuple) and v[0] == "seq":
                continue
            if not (isinstance(v, tuple) and v[0] == "obj" and v[1].startswith("@%d:" % uid)):
                raise Undecided("changes of a borrowed place")
            i, *names = v[1][len("@%d:" % uid):].split(".")
            i = int(i)
            s[i] = self.inside(s[i], names, e)
        return ("seq", tuple(s))

    def inside(self, x, names, e):
        if not names:
            return self.change(x, e)
        if x[0] == "tup" and names[0].isdigit():
            return ("tup", tuple(self.inside(y, names[1:], e) if i == int(names[0]) else y for i, y in enumerate(x[1])))
        if x[0] == "var":
            return ("var", x[1], tuple((n, self.inside(y, names[1:], e) if n == names[0] else y) for n, y in x[2]))
        raise Undecided("changes inside " + x[0])

    def change(self, x, e):
        n = last(e[0])
        if e[0] == "store":
            return self.val(e[1][1])
        if "EnumSet" in e[0] or "enumset" in e[0]:
            if x[0] != "enums":
                raise Undecided("not a set")
            add = self.val(e[1][1])
            names = frozenset([add[1]]) if add[0] == "var" else add[1] if add[0] == "enums" else None
            if names is None:
                raise Undecided("set element")
            if n in ("insert", "insert_all", "bitor_assign"):
                return ("enums", x[1] | names)
            if n in ("remove", "remove_all", "sub_assign"):
                return ("enums", x[1] - names)
        if n == "push":
            return ("seq", tuple(self.seq(x) + [self.val(e[1][1])]))
        raise Undecided("changed by " + n)

    def updated(self, t):
        v = self.val(t[1])
        for names, val in t[2]:
            v = self.put(v, names, self.val(val))
        return v

    def put(self, v, names, x):
        if not names:
            return x
        k = names[0]
        if isinstance(k, tuple) and k[0] == "it":
            s = self.seq(v)
            i = self.num(self.val(k[1]))
            if not i < len(s):
                raise Panic("writes past the end")
            s[i] = self.put(s[i], names[1:], x)
            return ("seq", tuple(s))
        if v[0] == "var":
            return ("var", v[1], tuple((n, self.put(y, names[1:], x) if n == k else y) for n, y in v[2]))
        if v[0] == "tup" and str(k).isdigit():
            return ("tup", tuple(self.put(y, names[1:], x) if i == int(k) else y for i, y in enumerate(v[1])))
        if v[0] in ("obj", "with") and len(names) == 1:
            return ("with", v if v[0] == "obj" else v[1], (() if v[0] == "obj" else v[2]) + (((k,), x),))
        raise Undecided("update of " + v[0])

    # -- what is added to a list given as an argument
    def added(self, arg):
        out = []
        for e in self.path.events:
            if not e[1]:
                continue
            for k, (i, f) in self.r.outs.items():
                if e[0].endswith(k) and len(e[1]) > i and e[1][i] == arg:
                    f(self, [self.val(a) if j != i else None for j, a in enumerate(e[1])], out)
                    break
            else:
                if e[1][0] == arg:
                    n = last(e[0])
                    if n in ("push", "push_back"):
                        out.append(self.val(e[1][1]))
                    elif n in ("extend", "append", "extend_from_slice"):
                        out += self.seq(self.val(e[1][1]))
                    elif n in ("len", "is_empty", "reserve"):
                        pass
                    else:
                        raise Undecided("list changed by " + n)
                elif any(a == arg for a in e[1]):
                    raise Undecided("list given to " + last(e[0]))
        return out


def facts(world):
    """the facts in words"""
    out = []
    for k, v in world.facts.items():
        if k[0] == "len":
            out.append("%d characters" % v)
        elif k[0] == "in":
            c = k[2]
            out.append("%s %s %s" % ("character %d" % c[2] if isinstance(c, tuple) and c[0] == "chr" else str(c)[:30], "in" if v else "not in", str(k[1]).split(".")[-1]))
        elif k[0] == "empty":
            out.append("%s %s" % (k[1].split(".")[-1], "empty" if v else "not empty"))
        elif k[0] == "some":
            out.append("%s%s" % ("" if v else "no ", str(k[1]).split(".")[-1]))
        else:
            out.append("%s=%s" % (" ".join(str(x) for x in k[1:]), v))
    return ", ".join(out)[:300]


def shared(work, jobs, depth=10):
    """work(share) in several processes; [results]"""
    import os, pickle, sys
    sys.stdout.flush()
    kids = []
    for i in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                data = pickle.dumps(work((i, jobs, depth)))
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
                code = 0
            except Exception:
                if os.environ.get("VP_DEBUG"):
                    import traceback
                    traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, r))
    out = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(data) if data else None)
    return out


def compare(rep, R, site, path, env, want, got=None, limit=400000, title=""):
    """compares every path of a function with the specified rule; (cases compared, undecided, first difference, reasons)"""
    if PANICS is not None:
        PANICS.append(site)
        R.guide = R.guide or ("::".join(path.split("::")[-2:]),)
    def work(share):
        n = [0, 0]
        why = {}
        bad = {}

        def run(w):
            try:
                try:
                    lf = R.run(w, path, dict(env(w) if callable(env) else env))
                    g = got(lf) if got else lf.val(lf.path.ret)
                except Panic as e:
                    if not R.guide:
                        raise
                    # does the world belong to the domain of the property?
                    want(Leaf(R, w, {}))
                    if w.mine():
                        n[0] += 1
                        bad.setdefault("", (w.facts, ("obj", "the end of the program"), ("obj", "a result")))
                        if os.environ.get("VP_DEBUG"):
                            print(last(path), e)
                    return
                x = want(lf)
            except Undecided as e:
                if w.mine() and R.ends and isinstance(e, Endless):
                    n[0] += 1
                    bad.setdefault("", (w.facts, ("obj", "no end"), ("obj", "an end")))
                elif w.mine():
                    n[1] += 1
                    why[str(e)] = why.get(str(e), 0) + 1
                return
            if not w.mine():
                return
            n[0] += 1
            if g != x and PANICS is None:
                bad.setdefault("", (w.facts, g, x))
        start = time.monotonic()

        def timed(w):
            run(w)
            if bad:
                raise Enough()
            if time.monotonic() - start > R.seconds:
                raise Undecided("not every case in %d s" % R.seconds)
        try:
            worlds(timed, limit, R.deny, share)
        except Enough:
            pass
        except Undecided as e:
            n[1] += 1
            why[str(e)] = 1
        return n[0], n[1], bad.get(""), why
    parts = shared(work, R.jobs) if R.jobs > 1 else [work(None)]
    n = u = 0
    bad, why = None, {}
    for p in parts:
        if p is None:
            u += 1
            why["a process ended early"] = 1
            continue
        n, u, bad = n + p[0], u + p[1], bad or p[2]
        for k, v in p[3].items():
            why[k] = why.get(k, 0) + v
    if why and os.environ.get("VP_DEBUG"):
        print(last(path), "not followed:", sorted(why.items(), key=lambda x: -x[1])[:6])
    if bad:
        w = World([])
        w.facts = bad[0]
        bad = (w,) + bad[1:]
    return n, u, bad, why
