"""C24: punctuation opcodes apply only where the text around them allows it.

Rule `kept`: the builder keeps the sets it is given, and makes a constrainer exactly if the table has a prepunc or postpunc rule.
Rule `scan`: prepunc is allowed where no letter stands immediately before, and the first letter, digit or space that follows
is a letter or digit; postpunc where no letter stands immediately after, and the last of them that precedes is a letter or digit.
Rule `gate`: the main loop drops prepunc and postpunc rules, and only these, where they are not allowed; forward only.
Rule `apart`: prepunc and postpunc rules are kept where no rule of another kind for the same characters displaces them, and are looked up.
Rule `sets`: the constrainer is given the table's letters, letters and digits, and spaces, and exists only forward.
"""
import flow, words
from words import Reader
from rules.c12 import where, one, budget, variant_of, about, receiver
from terms import last
from rules.c18 import setters, check, seq_, chr_
from rules.c20 import inner
from rules import sets
from roles import setter, fields_of
from rules.gates import gate

PC = "crate::translator::position_constraints::"
B = PC + "PunctuationConstrainerBuilder"


def present(rep, P):
    f = P.fns.get(B + "::mark_present")
    st = setter(P, f) if f is not None else None
    fields = {fields_of(place, ("arg", 1)): k for conds, place, how, k in st or () if not conds}
    if len(fields) != 1 or None in fields:
        return 1
    name, k = fields.popitem()
    if k not in (("const", 1), ("const", 0)):
        return 1
    R = Reader(P, inline_pred=inner(PC), guide=("PunctuationConstrainerBuilder::build",))
    return check(rep, R, "kept", B + "::build", {("arg", 1): ("obj", "b")}, lambda lf: lf.w.flag("b." + ".".join(name)) == bool(k[1]), "punctuation constrainer",
                 "there is a punctuation constrainer exactly if mark_present was called", got=lambda lf: lf.path.ret[2] == "Some")


def scan(rep, P):
    m, und = setters(rep, P, B, {"letter_characters": ("set", ("plain", ("arg", 2))), "letter_or_digit_characters": ("set", ("plain", ("arg", 2))),
                                 "space_characters": ("set", ("plain", ("arg", 2)))})
    if len(m) < 3:
        return und + 1
    for n in (words.MAX + 1,):      # a character more than elsewhere: what lies before and after both sides of a word
        R = Reader(P, maxlen=n, bound=n, inline_pred=inner(PC), guide=("PunctuationConstrainer::compute",))
        R.rename = m
        R.jobs = 8

        def want(lf):
            w = lf.w
            k = w.length("input", n)
            letter = lambda i: w.member("self.letter_characters", chr_(i))
            out = []
            for i in range(k):
                here = set()
                if i == 0 or not letter(i - 1):
                    if reaches(w, range(i + 1, k)):
                        here.add("PrepuncOk")
                if i == k - 1 or not letter(i + 1):
                    if reaches(w, range(i - 1, -1, -1)):
                        here.add("PostpuncOk")
                out.append(("enums", frozenset(here)))
            return seq_(out)
        und += check(rep, R, "scan", PC + "PunctuationConstrainer::compute", {("arg", 1): ("obj", "self"), ("arg", 2): ("word", "input", 0)}, want, "punctuation before and after words",
                     "prepunc is allowed before, postpunc after a word")
    return und


def reaches(w, r):
    for j in r:
        if w.member("self.letter_or_digit_characters", chr_(j)):
            return True
        if w.member("self.space_characters", chr_(j)):
            return False
    return False


def compiled(rep, P):
    return sets.given(rep, P, [k for k in sets.WANT if k[0] == "punctuation_constrainer"]) + sets.assembled(rep, P, ["Punctuation"])


def gates(rep, P):
    return gate(rep, P, ("punct",))


def apart(rep, P):
    """a rule that applies under a condition of its own kind is kept where no rule of another kind for the same characters displaces it"""
    f = one(P, "PrimaryTable::compile")
    W = where(f)
    und = 0
    for d in ("Forward", "Backward"):
        args = [("arg", 1), ("agg", "crate::Direction", d, (), ()), ("arg", 3), ("arg", 4)]
        slots = {}
        for p in flow.Flow(P, prune=budget(1), inline_pred=lambda g: g.path.endswith("::get_trie_mut")).paths(f, args):
            if any(c[0] == "call" and last(c[1]) == "is_nocross" and v == ("=", 1) for c, v in p.conds.items()):
                continue
            for b, v in variant_of(p).items():
                for e in p.events:
                    if not e[0].endswith("Trie::insert") or not any(about(a, b) for a in e[1][1:]):
                        continue
                    r = receiver(e[1][0])
                    slots.setdefault(v[1] if v[0] == "=" else "?", set()).add(r[3] if r[0] == "fld" else None)
        mine = {k: v for k, v in slots.items() if k in ("Prepunc", "Postpunc")}
        others = set().union(*[v for k, v in slots.items() if k not in mine])
        if len(mine) != 2 or any(None in v for v in slots.values()) or "?" in slots:
            und += 1
            continue
        rep.count("kinds of rules kept in tries (%s)" % d, len(slots))
        for k, v in mine.items():
            rest = others.union(*[w for j, w in mine.items() if j != k])
            rep.check("apart", "%s rules (%s)" % (k.lower(), d.lower()), not v & rest, W,
                      "%s rules share %s with rules of other kinds: of two rules for the same characters only one is kept, and where its condition fails the other does not apply" % (k.lower(), ", ".join(sorted(v & rest))))
        read = set()
        for q, g in P.fns.items():
            if "PrimaryTable::" in q and "Builder" not in q and g is not f and g.kind != "closure":
                try:
                    for p in flow.Flow(P, max_paths=400).paths(g):
                        for t in [p.ret] * bool(p.ret) + [a for e in p.events for a in e[1]]:
                            read |= {x[3] for x in flow.walk(t) if x[0] == "fld" and x[1] == ("arg", 1)}
                except flow.FlowLimit:
                    pass
        for k, v in mine.items():
            rep.check("apart", "%s rules are looked up (%s)" % (k.lower(), d.lower()), v <= read, W, "no part of the main loop looks up %s rules" % k.lower())
    return und


def run(rep, L, B):
    rep.parts([present, scan, compiled, gates, apart], L)


LEVEL = "other"
EXPLANATION = ("The function that finds the places for prepunc and postpunc is read as a decision tree over facts about an unnamed text (which characters are letters, digits, spaces); every path is compared "
               "with the definition under the same facts. What the constrainer is given is traced from the table's classes through the compile function, and the filter of the main loop is compared with its specified condition.")
ASSUMPTIONS = ["texts of up to four characters (five in the thorough tier), every combination of the three sets"]
