"""C02: results do not depend on hash seeds, addresses, time or scheduling."""
import re
from prog import succs

EXPLANATION = ("Order-taint over both crates: every value of a hash-map or hash-set iterator type (recognised by its resolved type, "
               "through any adaptor) must end in a consumer whose result does not depend on the order (membership test, count, "
               "all/any, collection into an unordered or sorted container, a vector that is sorted before anything else reads it) "
               "or in a loop whose body only performs order-insensitive insertions. Printing a hash container with {:?}, seeding "
               "from time, addresses, thread identity or parallel iteration is forbidden in everything the library reaches.")
LEVEL = "other"
ASSUMPTIONS = ["keys inserted into a trie from one unordered set are pairwise distinct"]

HASHIT = re.compile(r"std::collections::hash(?:_|::)(?:map|set)::(?:Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|Union|"
                    r"Intersection|Difference|SymmetricDifference|ExtractIf)\b")
HASHC = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)*std::collections::Hash(?:Map|Set)<")
UNORDERED = re.compile(r"^(?:&(?:'\w+ )?(?:mut )?)*(?:std::collections::(?:Hash(?:Map|Set)|BTree(?:Map|Set))<|enumset::EnumSet<)")
COMMUTATIVE = {"any", "all", "count", "sum", "product", "len", "size_hint", "max", "min", "is_empty", "is_subset", "is_disjoint", "is_superset", "contains"}
ADAPT_OK = {"next"}
SORTS = ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key")
# methods on &mut state a loop over unordered items may call: inserting distinct keys commutes
INSERTS = re.compile(r"std::collections::(?:Hash(?:Map|Set)|BTree(?:Map|Set))|enumset::EnumSet")
LOCAL_INSERTS = {"crate::translator::trie::Trie::insert": "distinct keys from one set",
                 "crate::translator::trie::Trie::insert_char": "distinct keys from one set"}
FORBID = ("std::time::", "std::thread::current", "std::thread::ThreadId", "RandomState", "std::ptr::addr", "rand::", "DefaultHasher", "rayon::")


def hash_iter(s):
    if HASHIT.search(s):
        return True
    return False


def last(n):
    return re.sub(r"::<.*>$", "", n).split("::")[-1]


class A:
    def __init__(self, rep, P, fn):
        self.rep, self.P, self.fn = rep, P, fn
        self.sites = 0

    def bad(self, c, text):
        self.rep.bad("order", "%s: %s" % (self.fn.path, text), c.loc() if hasattr(c, "loc") else str(c), "%s: %s" % (self.fn.path, text))

    def run(self):
        P, fn = self.P, self.fn
        for c in fn.calls():
            name = c.name or ""
            ats = [P.tstr(fn.oty(a)) for a in c.args if fn.oty(a) is not None]
            if any(f in name for f in FORBID):
                if not (P.is_bin and "rayon" in name):
                    self.bad(c, "calls %s" % name)
            dty = fn.pty(c.dest)
            ds = P.tstr(dty) if dty is not None else ""
            it = [i for i, s in enumerate(ats) if hash_iter(s)]
            # a hash container handed to Extend/FromIterator/IntoIterator consumers of another type
            if name.endswith("::extend") or name.endswith("::from_iter") or name.endswith("::append"):
                hc = [i for i, s in enumerate(ats) if i > 0 or not name.endswith("::extend")]
                src = ats[-1] if ats else ""
                if HASHC.match(src) or hash_iter(src):
                    self.sites += 1
                    tgt = ats[0] if name.endswith("::extend") else ds
                    if UNORDERED.match(tgt):
                        self.rep.ok("order", "%s: %s into %s" % (fn.path, last(name), tgt[:60]))
                    elif not self.sorted_after(c, c.args[0] if name.endswith("::extend") else None):
                        self.bad(c, "%s feeds %s in hash order" % (last(name), tgt[:80]))
                    continue
            if not it:
                # {:?} of a hash container
                if "Argument" in name and "debug" in name:
                    for s in ats:
                        if "Hash" in s and ("HashSet<" in s or "HashMap<" in s):
                            self.sites += 1
                            self.bad(c, "prints a hash container in hash order (%s)" % s[:80])
                continue
            if hash_iter(ds) and "Option<" != ds[:7] and not ds.startswith("std::option::Option"):
                continue                      # adaptor
            self.sites += 1
            m = last(name)
            if m == "next" or m == "nth" or name.endswith("Iterator>::next"):
                if m == "next":
                    self.loop(c)
                else:
                    self.bad(c, "takes an arbitrary element of a hash container with %s" % m)
                continue
            if m in COMMUTATIVE:
                self.rep.ok("order", "%s: %s" % (fn.path, m))
                continue
            if m in ("collect", "from_iter", "into_iter"):
                if UNORDERED.match(ds):
                    self.rep.ok("order", "%s: collected into %s" % (fn.path, ds[:70]))
                elif self.sorted_after(c, None):
                    self.rep.ok("order", "%s: collected and sorted" % fn.path)
                else:
                    self.bad(c, "hash order collected into %s" % ds[:80])
                continue
            if m in ("for_each", "try_for_each", "fold", "try_fold", "reduce", "find", "find_map", "position", "last", "max_by_key", "min_by_key",
                     "max_by", "min_by", "partition", "unzip", "join", "zip", "enumerate", "take", "skip", "peekable", "rev", "cmp", "eq", "max_by_key"):
                if m in ("find", "find_map") and False:
                    continue
                self.bad(c, "%s depends on hash order" % m)
                continue
            if m in ("drop", "clone", "fmt", "borrow", "as_ref", "drop_in_place", "next_back", "size_hint"):
                continue
            self.bad(c, "%s consumes a hash iterator" % name[:80])

    def sorted_after(self, c, recv):
        """the vector made by call c is sorted before any other use"""
        fn = self.fn
        if recv is None:
            base = {c.dest[0]} if not c.dest[1] else set()
        else:
            if "p" not in recv:
                return False
            base = self.deref_base(recv["p"][0])
        if not base:
            return False
        # follow moves of the value
        chg = True
        while chg:
            chg = False
            for b, i, s in fn.stmts():
                if s[0] == "=" and s[2][0] == "use" and "p" in s[2][1] and not s[2][1]["p"][1] and s[2][1]["p"][0] in base and not s[1][1]:
                    if s[1][0] not in base:
                        base.add(s[1][0])
                        chg = True
        # walk forward from the call; the first call that reaches the vector through a reference must be a sort
        start = c.target
        seen, st = set(), [start]
        ok = True
        aliases = set(base)
        while st:
            b = st.pop()
            if b in seen or b < 0:
                continue
            seen.add(b)
            B = fn.blocks[b]
            for s in B["s"]:
                if s[0] == "=" and s[2][0] in ("ref", "use") and not s[1][1]:
                    pl = s[2][2] if s[2][0] == "ref" else s[2][1].get("p")
                    if pl and pl[0] in aliases:
                        aliases.add(s[1][0])
            t = B["t"]
            if t[0] == "call":
                n = (t[1].get("res") or t[1].get("fn") or "")
                uses = [a for a in t[2] if "p" in a and a["p"][0] in aliases]
                if uses:
                    if last(n) in SORTS:
                        continue               # sorted on this path
                    if last(n) in ("deref_mut", "as_mut_slice", "deref", "borrow_mut", "index_mut"):
                        aliases.add(t[3][0])
                    else:
                        ok = False
                        break
            elif t[0] == "return":
                if 0 in base:
                    ok = False
                    break
            st.extend(succs(t))
        return ok

    def deref_base(self, l):
        fn = self.fn
        out = set()
        for b, i, s in fn.stmts():
            if s[0] == "=" and s[1] == [l, []] and s[2][0] == "ref" and not s[2][2][1]:
                out.add(s[2][2][0])
        return out

    def loop(self, c):
        """next() on a hash iterator: the surrounding loop may only do order-insensitive insertions"""
        fn, P = self.fn, self.P
        header = c.b
        # natural loop: blocks that can reach the call block and are reachable from it
        fw, st = set(), [c.target]
        while st:
            b = st.pop()
            if b in fw or b < 0:
                continue
            fw.add(b)
            st.extend(succs(fn.blocks[b]["t"]))
        if header not in fw:
            self.bad(c, "takes an arbitrary element of a hash container")
            return
        preds = fn.preds()
        loop, st = {header}, [header]
        while st:
            b = st.pop()
            for p in preds[b]:
                if p in fw and p not in loop:
                    loop.add(p)
                    st.append(p)
        loop &= fw | {header}
        # exits: only the None edge of next
        nxt = c.target
        ok = True
        for b in loop:
            for s in succs(fn.blocks[b]["t"]):
                if s not in loop and not (b == nxt or b == header):
                    if not self.returns(s) or self.same_exit(s, loop):
                        continue
                    self.bad(c, "loop over a hash container leaves early")
                    ok = False
        defs_out = {}
        for b, i, s in fn.stmts():
            if s[0] == "=" and b not in loop:
                defs_out.setdefault(s[1][0], []).append(b)
        for b in fn.reachable():
            t = fn.blocks[b]["t"]
            if t[0] == "call" and b not in loop:
                defs_out.setdefault(t[3][0], []).append(b)
        used_after = set()
        for b in fn.reachable():
            if b in loop:
                continue
            for s in fn.blocks[b]["s"]:
                if s[0] == "=":
                    for pl in rv_places(s[2]):
                        used_after.add(pl[0])
            t = fn.blocks[b]["t"]
            for o in (t[2] if t[0] == "call" else [t[1]] if t[0] in ("switch", "assert") else []):
                if "p" in o:
                    used_after.add(o["p"][0])
        for b in sorted(loop):
            B = fn.blocks[b]
            for s in B["s"]:
                if s[0] == "=" and s[1][0] in defs_out and (s[1][0] in used_after or s[1][0] == 0 or s[1][1]):
                    if P.tstr(fn.lty(s[1][0])) == "()":
                        continue
                    if s[1][0] <= fn.argc or s[1][0] in used_after:
                        if s[2][0] == "bin" and s[2][1] in ("Add", "AddWithOverflow", "BitOr", "BitAnd", "Mul"):
                            continue
                        if s[2][0] == "use" and "p" in s[2][1] and s[2][1]["p"][1][-1:] and self.is_acc(s, b):
                            continue
                        if s[2][0] == "use" and "v" in s[2][1] and self.one_constant(s, loop):
                            continue
                        self.bad(c, "loop over a hash container assigns %s" % (fn.lname(s[1][0]) or "a variable"))
                        ok = False
            t = B["t"]
            if t[0] == "call" and b != header:
                n = t[1].get("res") or t[1].get("fn") or ""
                for k, a in enumerate(t[2]):
                    ty = fn.oty(a)
                    if ty is None:
                        continue
                    s = P.tstr(ty)
                    if not s.startswith("&mut") and not re.match(r"&'\w+ mut ", s):
                        continue
                    inner = s.replace("&mut ", "", 1)
                    if INSERTS.search(n) and last(n) in ("insert", "extend", "entry", "remove", "retain", "or_insert", "or_insert_with", "or_default"):
                        continue
                    if UNORDERED.match(s) and last(n) in ("insert", "extend", "entry"):
                        continue
                    if n in LOCAL_INSERTS:
                        continue
                    if self.fresh(a["p"][0] if "p" in a else -1, loop):
                        continue
                    self.bad(c, "loop over a hash container calls %s with mutable state" % n[:90])
                    ok = False
        if ok:
            self.rep.ok("order", "%s: loop with order-insensitive body" % fn.path)

    def one_constant(self, s, loop):
        """every assignment to the variable in the loop stores the same constant"""
        return all(x[2] == s[2] or x[2][0] == "use" and x[2][1].get("v", x) == s[2][1]["v"]
                   for b in loop for x in self.fn.blocks[b]["s"] if x[0] == "=" and x[1] == s[1]) and \
            not any(self.fn.blocks[b]["t"][0] == "call" and self.fn.blocks[b]["t"][3] == s[1] for b in loop)

    def same_exit(self, s, loop):
        """an early exit that carries nothing of the element it stopped at, from a loop that stores nothing"""
        fn = self.fn
        local = set()
        for b in loop:
            for x in fn.blocks[b]["s"]:
                if x[0] == "=" and not (x[2][0] == "use" and "v" in x[2][1] and self.one_constant(x, loop)):
                    local.add(x[1][0])
            t = fn.blocks[b]["t"]
            if t[0] == "call":
                local.add(t[3][0])
                for a in t[2]:
                    ty = fn.oty(a)
                    if ty is not None and P_mut(self.P.tstr(ty)) and last(t[1].get("res") or t[1].get("fn") or "") != "next":
                        return False
        seen, st = set(), [s]
        while st:
            x = st.pop()
            if x in seen or x in loop:
                continue
            seen.add(x)
            B = fn.blocks[x]
            for y in B["s"]:
                if y[0] == "=" and any(pl[0] in local for pl in rv_places(y[2])):
                    return False
            t = B["t"]
            for o in (t[2] if t[0] == "call" else [t[1]] if t[0] in ("switch", "assert") else []):
                if "p" in o and o["p"][0] in local:
                    return False
            st.extend(succs(t))
        return 0 not in local

    def returns(self, b):
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.fn.blocks[x]["t"][0] == "return":
                return True
            st.extend(succs(self.fn.blocks[x]["t"]))
        return False

    def is_acc(self, s, b):
        pl = s[2][1]["p"]
        for t in self.fn.blocks:
            for x in t["s"]:
                if x[0] == "=" and x[1][0] == pl[0] and x[2][0] == "bin" and x[2][1] in ("AddWithOverflow", "MulWithOverflow"):
                    return True
        return False

    def fresh(self, l, loop):
        """the mutable reference points to something made inside the loop"""
        fn = self.fn
        seen = set()
        st = [l]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x <= fn.argc:
                return False
            defs = [(b, s) for b, i, s in fn.stmts() if s[0] == "=" and s[1][0] == x]
            cdefs = [b for b in fn.reachable() if fn.blocks[b]["t"][0] == "call" and fn.blocks[b]["t"][3][0] == x]
            if any(b not in loop for b, _ in defs) or any(b not in loop for b in cdefs):
                return False
            for b, s in defs:
                if s[2][0] == "ref":
                    st.append(s[2][2][0])
                elif s[2][0] == "use" and "p" in s[2][1]:
                    st.append(s[2][1]["p"][0])
            for b in cdefs:
                for a in fn.blocks[b]["t"][2]:
                    if "p" in a and P_mut(self.P, fn, a):
                        st.append(a["p"][0])
        return True


def P_mut(P, fn, a):
    t = fn.oty(a)
    return t is not None and P.tstr(t).startswith("&mut")


def P_mut(s):
    return s.startswith("&mut") or bool(re.match(r"&'\w+ mut ", s))


def rv_places(rv):
    k = rv[0]
    if k == "ref":
        return [rv[2]]
    if k in ("discr", "rawptr", "len"):
        return [rv[1]]
    out = []
    from prog import rv_operands
    for o in rv_operands(rv):
        if "p" in o:
            out.append(o["p"])
    return out


def run(rep, L, B):
    for P in (L, B):
        n = 0
        for fn in P.fns.values():
            if P.is_bin and fn.path in P.lib_paths:
                continue
            a = A(rep, P, fn)
            a.run()
            n += a.sites
            if not a.sites:
                rep.ok("no-hash-order", fn.path)
        if P.is_bin:
            rep.count("hash iteration sites in the command line tool", n)
        else:
            rep.floor("hash iteration sites in the library", n, 6)
