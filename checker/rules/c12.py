"""C12: every rule takes effect in the compiled table the way its opcode is defined."""
import collections
import flow
from prog import AnchorError
from terms import last, src, callee, short, calls_in, mentions
from rules.c07 import method, impl

EXPLANATION = ("Path-splitting provenance dataflow over the functions that compile rules into tables. For every kind of rule the effects of "
               "compiling it (characters, classes, trie entries with their boundary conditions, indicators, patterns) are read off every "
               "path through the compiler and compared with a table of what the opcode is defined to do.")
LEVEL = "other"
ASSUMPTIONS = ["the effect table in this file follows the liblouis table documentation",
               "an effect inside a closure the dataflow does not enter counts as undecided, not as missing"]

# ---- what compiling a rule of each kind has to do -------------------------------------------------
# trie(characters, cells, class before, class after, named classes); '?' marks an effect that depends on a documented condition
SP, L, D, LSP = "Punctuation+Space", "Letter", "Digit", "Letter+Punctuation+Space"


def trie(before, after, classes=True, cells="cells(dots,chars)", to="trie"):
    return "%s(chars,%s,%s,%s,%s)" % (to, cells, before and "Start:" + before, after and "End:" + after, "classes(with_classes)" if classes else "-")


def char(extra=()):
    return ["insert_character(character,dots)"] + list(extra)


def ind(recv, name, *args):
    return ["%s.%s(%s)" % (recv, name, ",".join(args))]


def backward(name, constrainer=None):
    return ["<?insert_backward_indicator(dots)"] + ["<?%s.%s(dots)" % (constrainer, name)]


PRIMARY = {
    "Undefined": ["=undefined(dots)"],
    "Space": char(), "Punctuation": char(), "Litdigit": char(["<register_backward_digit_override(character,dots)"]),
    "Digit": [">?insert_character(character,dots)", "<insert_character(character,dots)", "<register_backward_digit_override(character,dots)"],
    "Letter": char(), "Lowercase": char(), "Uppercase": char(), "Sign": char(), "Math": char(), "Hyphen": char(),
    "Decpoint": char(["numeric_indicator.midnum(character)", "numeric_constrainer.midnum(character)"]),
    "Base": ["?insert_character(derived,definition(base))"],
    "Numsign": ind("numeric_indicator", "numsign", "dots") + backward("numsign", "backward_numeric_constrainer"),
    "Nonumsign": ind("numeric_indicator", "nonumsign", "dots") + backward("nonumsign", "backward_numeric_constrainer"),
    "Numericnocontchars": ind("numeric_indicator", "numericnocontchars", "chars"),
    "Numericmodechars": ind("numeric_indicator", "numericmodechars", "chars") + ind("numeric_constrainer", "numericmodechars", "chars"),
    "Capsletter": ind("uppercase_indicator", "capsletter", "dots") + backward("capsletter", "backward_caps_constrainer"),
    "Begcapsword": ind("uppercase_indicator", "begcapsword", "dots") + backward("begcapsword", "backward_caps_constrainer"),
    "Endcapsword": ind("uppercase_indicator", "endcapsword", "dots") + backward("endcapsword", "backward_caps_constrainer"),
    "Begcaps": ind("uppercase_indicator", "begcaps", "dots"), "Endcaps": ind("uppercase_indicator", "endcaps", "dots"),
    "Capsmodechars": ind("uppercase_indicator", "capsmodechars", "chars"),
    "Begcapsphrase": ind("uppercase_indicator", "begcapsphrase", "dots"),
    "Endcapsphrase": ind("uppercase_indicator", "endcapsphrase", "dots", "position"),
    "Lencapsphrase": ind("uppercase_indicator", "lencapsphrase", "number"),
    "Emphclass": ind("emphasis_indicator", "emphclass", "name"),
    "Emphletter": ind("emphasis_indicator", "emphletter", "name", "dots"),
    "Begemphword": ind("emphasis_indicator", "begemphword", "name", "dots"),
    "Endemphword": ind("emphasis_indicator", "endemphword", "name", "dots"),
    "Begemphphrase": ind("emphasis_indicator", "begemphphrase", "name", "dots"),
    "Endemphphrase": ind("emphasis_indicator", "endemphphrase", "name", "dots", "position"),
    "Lenemphphrase": ind("emphasis_indicator", "lenemphphrase", "name", "number"),
    "Begemph": ind("emphasis_indicator", "begemph", "name", "dots"), "Endemph": ind("emphasis_indicator", "endemph", "name", "dots"),
    "Emphmodechars": ind("emphasis_indicator", "emphmodechars", "name", "chars"),
    "Noemphchars": ind("emphasis_indicator", "noemphchars", "name", "chars"),
    "Letsign": ind("lettersign_indicator", "letsign", "dots"),
    "Noletsign": ind("lettersign_indicator", "noletsign", "chars"),
    "Noletsignafter": ind("lettersign_indicator", "noletsignafter", "chars"),
    "Noletsignbefore": ind("lettersign_indicator", "noletsignbefore", "chars"),
    "Contraction": [trie(SP, SP, False, "cells(Implicit,chars)")] + ind("lettersign_indicator", "contraction", "chars") + ind("nocontract_indicator", "contraction", "chars"),
    "Nocontractsign": ind("nocontract_indicator", "nocontractsign", "dots"),
    "Comp6": [trie(None, None, False, to="comp6_trie")],
    "Always": [trie(None, None), "<~extend(dots)", "<~insert(each(dots))"], "Syllable": [trie(None, None, False)],
    "Begcomp": ind("computer_braille_indicator", "begcomp", "dots"), "Endcomp": ind("computer_braille_indicator", "endcomp", "dots"),
    "Compbrl": ["compbrl_triggers.push(chars)"],
    "Largesign": [trie(None, None, False, "dots")],
    "Word": [trie(SP, SP)], "Begword": [trie(SP, L)], "Midword": [trie(L, L)], "Partword": [trie(L, None), trie(None, L)],
    "Midendword": [trie(L, LSP)], "Endword": [trie(L, SP)], "Prfword": [trie(SP, SP), trie(L, SP)], "Sufword": [trie(SP, SP), trie(SP, L)],
    "Begmidword": [trie(LSP, L)], "Joinword": [trie(SP, SP, False, "dots")], "Lowword": [trie(SP, SP, False, "dots")],
    "Begnum": [trie(SP, D, False, "dots")],
    "Midnum": [trie(D, D, False, "dots"), "numeric_indicator.midnum(chars)", "numeric_constrainer.midnum(chars)"],
    "Endnum": [trie(D, None, False)],
    "Prepunc": ["?" + trie(None, None, False, "dots"), "?punctuation_constrainer.mark_present()"],
    "Postpunc": ["?" + trie(None, None, False, "dots"), "?punctuation_constrainer.mark_present()"],
    "Match": ["match_patterns.insert(pre,chars,post,cells(dots,chars))"],
    "Context": ["context_patterns.insert(test,action)"],
    "IncludeHyphenation": ["hyphenation_constrainer.hyphenator(hyphens(path))"],
}


def members(c, extra=(), chars="chars"):
    return ["classes.insert(%s,each(%s))" % (c, chars), "dotclasses.insert_associated_dot(%s,each(%s))" % (c, chars)] + list(extra)


def defchar(*cs):
    return ["definitions.insert(character,dots)"] + [x for c in cs for x in ("classes.insert(%s,character)" % c, "dotclasses.insert_dots(%s,dots)" % c)]


CONTEXT = {
    "Space": defchar("Space"), "Punctuation": defchar("Punctuation"), "Digit": defchar("Digit"), "Litdigit": defchar("Litdigit"), "Letter": defchar("Letter"),
    "Lowercase": defchar("Lowercase", "Letter"), "Uppercase": defchar("Uppercase", "Letter"), "Sign": defchar("Sign"), "Math": defchar("Math"),
    "Hyphen": defchar("Punctuation"), "Decpoint": defchar("Punctuation"),
    "Always": ["?dotclasses.insert(Letter,each(dots))"],
    "Base": ["?definitions.insert(derived,definition(base))", "?classes.insert(class(name),derived)", "?classes.insert(Letter,derived)"],
    "Attribute": members("class(name)"), "Class": members("class(name)"),
    "Seqdelimiter": members("Seqdelimiter"), "Seqbeforechars": members("Seqbeforechars"), "Seqafterchars": members("Seqafterchars"),
    "Swapcc": members("class(name)", ["swaps.insert(name,zip(chars,replacement))"]),
    "Swapcd": members("class(name)", ["swaps.insert(name,zip(chars,dots))"]),
    "Swapdd": ["classes.insert(class(name),each(dots))", "dotclasses.insert(class(name),each(dots))", "swaps.insert(name,zip(dots,replacement))"],
}
FIELDS = {"character_definitions": "definitions", "character_classes": "classes", "dots_classes": "dotclasses", "swap_classes": "swaps"}
# the effects that define a rule's meaning all act on the table being built; queries are not effects
QUERY = {"store", "contains", "get", "braille_to_unicode", "precedence", "backward_indicator_dots_available", "resolve_class_constraints", "to_string", "clone",
         "next", "into_iter", "iter", "chars", "all", "any", "is_nocross", "get_trie_mut", "character_definitions", "character_classes", "read_to_string",
         "parse", "from", "eq", "ne", "as_str", "zip", "map", "collect", "to_unicode", "deref", "as_ref", "is_alphabetic", "fmt", "len", "is_empty", "cmp",
         "is_direction", "directions", "to_owned", "as_deref", "cloned", "copied", "is_some_and", "to_vec", "with_capacity", "new", "default", "borrow",
         "format", "filter", "unwrap", "expect", "keys", "values", "warn", "log", "enumerate", "dots_classes", "swap_classes", "first", "last", "hash"}
STRIP = {"to_string", "clone", "as_str", "deref", "to_owned", "as_ref", "into_iter", "iter", "chars", "into", "borrow", "to_vec", "as_slice", "cloned", "copied", "as_mut_slice",
         "as_ptr", "deref_mut", "borrow_mut", "as_mut"}
# the condition of a conditional effect: test and the outcome under which the effect takes place
GUARDS = {"insert_character(character,dots)": ("contains", 0), "insert_character(derived,definition(base))": ("definition", 1),
          "insert_backward_indicator(dots)": ("backward_indicator_dots_available", 1), "backward_": ("backward_indicator_dots_available", 1),
          "punctuation_constrainer.mark_present()": ("all", 1), "trie(": ("all", 1), "definitions.insert(derived,definition(base))": ("definition", 1),
          "classes.insert(class(name),derived)": ("definition", 1), "classes.insert(Letter,derived)": ("name", 1), "dotclasses.insert(Letter,each(dots))": ("all", 1)}


def root_new(t):
    while t[0] == "mut":
        t = t[3]
    return t[0] == "call" and last(t[1]) in ("new", "default", "with_capacity")


def nm(t):
    if t[0] == "fld" and t[2] == "+":
        s = t[1]
        if s[0] == "call" and last(s[1]) == "next":
            return "each(%s)" % nm(s[2][0])
        return nm(s)
    if t[0] == "fld":
        if t[3] == "0":
            b = src(t)
            return nm(b) if b != t else nm(t[1])
        return str(t[3])
    if t[0] in ("okor", "ok", "as", "orelse", "ordefault", "resid"):
        return nm(t[1])
    if t[0] == "maperr":
        return nm(t[1])
    if t[0] == "mut":
        if last(t[2]) in ("push", "extend", "push_back") and root_new(t):
            return "mut:"                   # a list filled step by step
        return nm(t[3])
    if t[0] == "upd":
        return nm(t[1])
    if t[0] == "call":
        n = last(t[1])
        if n in STRIP and t[2]:
            return nm(t[2][0])
        if n == "next" and t[2]:
            return "each(%s)" % nm(t[2][0])
        if n in ("map", "collect"):
            return nm(t[2][0])
        if n == "get_trie_mut":
            return "trie"
        if n == "braille_to_unicode":
            return "cells(%s,%s)" % (nm(t[2][1]), nm(t[2][2]))
        if n == "resolve_class_constraints":
            return "classes(%s)" % nm(t[2][-1])
        if n == "get" and "CharacterDefinition" in t[1]:
            return "definition(%s)" % nm(t[2][1])
        if n == "parse" and "Hyphen" in t[1]:
            return "hyphens(%s)" % nm(t[2][0])
        if n == "read_to_string":
            return nm(t[2][-1])
        if n in ("from", "from_str") and "CharacterClass" in t[1]:
            return "class(%s)" % nm(t[2][0])
        if n in ("new", "default", "empty") and not t[2]:
            return "-"
        return n + "(%s)" % ",".join(nm(a) for a in t[2])
    if t[0] == "agg":
        if t[2] in ("Some", "Start", "End") and t[4]:
            r = nm(t[4][0])
            return r if t[2] == "Some" else t[2] + ":" + r
        return t[2] if not t[4] else t[2] + "{" + ",".join(nm(o) for o in t[4]) + "}"
    if t[0] == "array":
        return "+".join(sorted(nm(o) for o in t[1])) or "-"
    if t[0] == "cast" or t[0] == "un" and t[1] == "cast":
        return nm(t[-1])
    if t[0] in ("str", "char", "const"):
        return repr(t[1])
    return short(t)


def rule_base(t):
    """the anchored rule a term is derived from: the term whose `rule` field is matched"""
    for x in flow.walk(t):
        if x[0] == "fld" and x[3] == "rule":
            return x[1]
    return None


def variant_of(p):
    """{anchored rule term: variant or ('!', excluded)} on a path"""
    r = {}
    for c, v in p.conds.items():
        if c[0] == "discr" and c[1][0] == "fld" and c[1][3] == "rule":
            r.setdefault(c[1][1], []).append(v)
    out = {}
    for b, vs in r.items():
        eq = {v[1] for v in vs if v[0] == "="}
        out[b] = ("=", eq.pop()) if len(eq) == 1 else ("!=", frozenset().union(*[v[1] for v in vs if v[0] == "!="]))
    return out


def about(t, base):
    return any(x == base for x in flow.walk(t))


def receiver(t):
    while t[0] in ("mut", "upd"):
        t = t[3] if t[0] == "mut" else t[1]
    return t


def field_names(p):
    """which of the tables in the result a call acted on, by call"""
    names = {}
    for x in flow.walk(p.ret) if p.ret else ():
        if x[0] == "agg" and x[1].endswith("TableContext"):
            for k, o in zip(x[3], x[4]):
                if k in FIELDS:
                    while o[0] in ("mut", "upd"):
                        if o[0] == "mut":
                            names[o[1]] = FIELDS[k]
                        o = o[3] if o[0] == "mut" else o[1]
    return names


def effects(p, base, names):
    """normalised effects of a path that concern the rule `base`"""
    out = []
    names = field_names(p) if names else {}
    for e in p.events:
        n = last(e[0])
        if n in QUERY or not any(about(a, base) for a in e[1] if not receiver_like(a)) and n != "mark_present":
            continue
        r = receiver(e[1][0])
        args = [a for a in e[1][1:]]
        if n == "insert" and e[0].endswith("Trie::insert") and len(args) >= 8:
            out.append(("%s(%s,%s,%s,%s,%s)" % (nm(r), nm(args[0]), nm(args[1]), opt(args[2]), opt(args[3]), cls(args[6])), e, args))
            continue
        args = [a for a in args if not is_context(a, base)]
        pre = nm(r) + "." if r[0] == "fld" else ""
        if names and n in ("insert", "insert_dots", "insert_associated_dot"):
            pre = names.get(e[2], "?") + "."
            args = args[:2]
        out.append(("%s%s(%s)" % (pre, n, ",".join(nm(a) for a in args)), e, args))
    return out


def opt(t):
    if t[0] == "agg" and t[2] == "None":
        return "None"
    return nm(t)


def cls(t):
    r = nm(t)
    return "-" if r in ("-", "") else r


def is_context(a, base):
    """directions, stages, table contexts and the rule itself accompany an effect, they are not its operands"""
    a = receiver(a)
    if a == base or a[0] == "agg" and (a[1].endswith("Direction") or a[1].endswith("TranslationStage")):
        return True
    if a[0] == "arg":
        return True
    s = src(a)
    if s == base:
        return True
    return a[0] == "call" and (last(a[1]) in ("character_classes", "precedence", "character_definitions") or last(a[1]) == "collect" and not about(a, base))


def budget(n):
    def prune(key, bn, st):
        if bn != "+":
            return False
        b = key[1]
        if b[0] == "call" and last(b[1]) == "next":
            return sum(1 for k, v in st.conds.items() if k[0] == "discr" and k[1][0] == "call" and last(k[1][1]) == "next" and v == ("=", "+")) >= n
        return False
    return prune


def run(rep, L, B):
    und = primary(rep, L) + context(rep, L)
    for part in (store, trie_insert, trie_find, classes, resolve_classes, precedence, build):
        und += part(rep, L) or 0
    rep.count("undecided", und)


def one(P, suffix):
    fs = [f for p, f in P.fns.items() if p.endswith(suffix) and "::tests::" not in p]
    if len(fs) != 1:
        raise AnchorError(suffix)
    return fs[0]


def where(f):
    return "%s:%d" % (f.file, f.line)


DIR = {d: ("agg", "crate::Direction", d, (), ()) for d in ("Forward", "Backward")}


def store(rep, P):
    """a character definition ends up in the storage of its direction under its own key"""
    und = 0
    f = one(P, "PrimaryTableBuilder::insert_character")
    for d in DIR:
        for p in flow.Flow(P).paths(f, [("arg", 1), ("arg", 2), ("arg", 3), DIR[d], ("arg", 5)]):
            if p.trunc or p.div:
                continue
            got = []
            for e in p.events:
                n = last(e[0])
                if n == "insert" and "CharacterTranslation" in e[0]:
                    t = src(e[1][2])
                    ok = receiver(e[1][1]) == ("arg", 2) and t[0] == "call" and last(t[1]) == "new" and nm(t[2][0]) == "arg2" and nm(t[2][1]) == "arg3" and t[2][2] == ("const", 1) and ("arg", 5) in list(flow.walk(t[2][4]))
                    got.append(("Forward", ok))
                elif n in ("insert_char", "insert") and "Trie::" in e[0]:
                    ok = e[1][0][0] == "fld" and e[1][0][3] == "trie" and nm(e[1][1]) == "arg2" and nm(e[1][2]) == "arg3" and DIR[d] in e[1] and ("arg", 5) in e[1]
                    got.append(("Backward", ok))
            if not got:
                und += 1
            for w, ok in got:
                rep.check("store", "character definition, %s" % d, w == d and ok, where(f), "a character definition for %s translation is stored as %s entry%s" % (d, w, "" if ok else " with the wrong key, cells or rule"))
            if got and len(got) != 1:
                rep.bad("store", "character definition, %s" % d, where(f), "a character definition is stored more than once")
    f = one(P, "Trie::insert_char")
    for p in flow.Flow(P).paths(f):
        for e in p.events:
            if e[0].endswith("Trie::insert"):
                a = e[1]
                ok = nm(a[1]) == "arg2" and nm(a[2]) == "arg3" and opt(a[3]) == opt(a[4]) == "None" and a[5] == ("arg", 4) and a[6] == ("arg", 5) and cls(a[7]) == "-" and a[8] == ("arg", 6) and a[9] == ("arg", 7)
                rep.check("store", "insert_char", ok, where(f), "insert_char does not insert the character and its cells without conditions")
    f = one(P, "register_backward_digit_override")
    n = 0
    for p in flow.Flow(P).paths(f):
        shared = single = None
        for c, v in p.conds.items():
            if c[0] == "call" and last(c[1]) == "contains":
                shared = v == ("=", 1)
            if c[0] == "bin" and c[1] == "Eq" and ("const", 1) in c[2:]:
                single = v == ("=", 1)
        ins = [e for e in p.events if last(e[0]) == "insert" and e[1][0][0] == "fld" and e[1][0][3] == "backward_digit_overrides"]
        if p.div or p.trunc or single is None:
            und += 1
            continue
        n += 1
        rep.check("store", "digit override, single=%s shared=%s" % (single, shared), bool(ins) == bool(single and shared), where(f),
                  "a digit whose cell is shared with a letter is %sregistered although single cell=%s, shared=%s" % ("" if ins else "not ", single, shared))
        for e in ins:
            t = src(e[1][2])
            ok = nm(t[2][0]) == "arg3" and nm(t[2][1]) == "arg2" and t[2][2] == ("const", 1) if t[0] == "call" and last(t[1]) == "new" else None
            if ok is not None:
                rep.check("store", "digit override content", ok and ("arg", 3) in list(flow.walk(e[1][1])), where(f), "the digit reading of a cell maps the wrong way round")
    return und


def chain(t):
    """the transitions followed from the root to a node: entry(or_default(entry(...)))"""
    out = []
    while True:
        if t[0] == "fld":
            t = t[1]
        elif t[0] == "call" and last(t[1]) in ("or_default", "or_insert", "or_insert_with"):
            t = t[2][0]
        elif t[0] == "call" and last(t[1]) == "entry":
            out.append(t)
            t = t[2][0]
        elif t[0] in ("mut", "upd"):
            t = receiver(t)
        else:
            return list(reversed(out))


def kind_of(P, key):
    """'before', 'after', 'Start', 'End' or 'char' of the key of a transition"""
    if key[0] == "app":
        return {"4": "before", "5": "after"}.get(arg_no(key))
    if key[0] == "agg" and key[2] == "Character":
        return "char"
    a = arg_no(key)
    if a in ("4", "5"):
        return {"4": "before", "5": "after"}[a]
    if key[0] == "agg" and key[2] in ("Start", "End"):
        return key[2]
    return None


def arg_no(t):
    ns = {str(x[1]) for x in flow.walk(t) if x[0] == "arg"}
    return ns.pop() if len(ns - {"1"}) == 1 and not ns.discard("1") else None


def trie_insert(rep, P):
    f = one(P, "Trie::insert")
    und = n = 0
    folds = set()
    for d in DIR:
        frm, to = (("arg", 2), ("arg", 3)) if d == "Forward" else (("arg", 3), ("arg", 2))
        args = [("arg", i) for i in range(1, 11)]
        args[5] = DIR[d]
        for p in flow.Flow(P, prune=budget(3), max_paths=6000).paths(f, args):
            if p.trunc or p.div:
                continue
            entries = [e for e in p.events if last(e[0]) == "entry"]
            # the longest chain is the path of the rule
            longest = max([chain(("call", e[0], e[1], e[2])) for e in entries], key=len, default=[])
            if len(longest) != len(entries):
                und += 1
                continue
            kinds = [kind_of(P, t[2][1]) for t in longest]
            if None in kinds:
                und += 1
                continue
            want = {"before": 0, "after": 0, "Start": 0, "End": 0, "char": 0}
            for c, v in p.conds.items():
                if c[0] != "discr" or v[0] != "=":
                    continue
                if c[1] == ("arg", 4) and v[1] == "+":
                    want["before"] = 1
                if c[1] == ("arg", 5) and v[1] == "+":
                    want["after"] = 1
                if c[1][0] == "call" and last(c[1][1]) == "next" and v[1] == "+" and frm in list(flow.walk(c[1])):
                    want["char"] += 1
            passes = collections.Counter()
            for c, v in p.conds.items():
                if c[0] == "discr" and c[1][0] == "fld" and v[0] == "=" and v[1] in ("Start", "End") and ("arg", 8) in list(flow.walk(c[1])):
                    passes[v[1]] += 1
            # each constraint is visited by up to two loops; it must be entered once by the one that handles its kind
            n += 1
            inst = "%s before=%d after=%d" % (d, want["before"], want["after"])
            for k in ("before", "after"):
                rep.check("trie", "%s: %s condition" % (inst, k), kinds.count(k) == want[k], where(f), "the condition on the character %s the match is %s" % (k, "lost" if want[k] else "invented"))
            for k in ("Start", "End"):
                if kinds.count(k) > passes[k]:
                    rep.bad("trie", "%s constraint kind" % k, where(f), "a constraint on a named class is entered as %s although it is not one" % k)
            rank = {"before": 0, "Start": 0, "char": 1, "after": 2, "End": 2}
            r = [rank[k] for k in kinds]
            rep.check("trie", "%s: order of the path %s" % (inst, "-".join(kinds)), r == sorted(r), where(f), "the conditions of a rule are checked at the wrong place: %s" % " ".join(kinds))
            for t, k in zip(longest, kinds):
                key = t[2][1]
                if k == "char":
                    folds.add(fold(key[4][0]))
                    rep.check("trie", "%s: characters of the path" % d, frm in list(flow.walk(key)), where(f), "%s translation looks for the wrong side of the rule" % d)
                elif k in ("Start", "End"):
                    ok = any(last(c[1]) == "resolve" and c[2][0] == ("fld", ("arg", 1), None, "ctx") for c in calls_in(key))
                    rep.check("trie", "%s: class of a %s constraint" % (d, k), ok, where(f), "a named class is not resolved in the classes of the table")
            zero = sum(1 for k in kinds if k != "char")
            for e in p.events:
                if last(e[0]) == "new" and "ResolvedTranslation" in e[0]:
                    a = e[1]
                    ok = a[0] == frm and a[1] == to and a[3] == ("arg", 9) and ("arg", 10) in list(flow.walk(a[4]))
                    rep.check("trie", "%s: translation" % d, ok, where(f), "the entry for %s translation has input and output, stage or rule mixed up" % d)
                    w = weight(a[2])
                    if w is None:
                        und += 1
                    else:
                        rep.check("trie", "%s: weight with %d conditions" % (inst, zero), w == (zero, True) and about(a[2], frm), where(f),
                                  "a rule with %d conditions has the weight of %d" % (zero, w[0]) if w[1] else "the weight of a rule does not count its characters")
    rep.floor("paths through the insertion of a rule", n, 100)
    g = one(P, "TrieNode::char_transition")
    looks = set()
    for p in flow.Flow(P).paths(g):
        for e in p.events:
            if last(e[0]) == "get":
                looks |= {fold(x[4][0]) for x in flow.walk(e[1][1]) if x[0] == "agg" and x[2] == "Character"}
    if folds and looks:
        rep.check("trie", "letter case", folds == looks, where(f), "characters are stored %s but looked up %s" % (sorted(folds), sorted(looks)))
    else:
        und += 1
    # conditions are resolved in the classes of the table and keep their side
    g = one(P, "Trie::resolve_transition")
    for p in flow.Flow(P).paths(g):
        v = [v[1] for c, v in p.conds.items() if c == ("discr", ("arg", 2)) and v[0] == "="]
        if p.div or p.trunc or len(v) != 1 or p.ret[0] != "agg":
            und += 1
            continue
        ok = p.ret[2] == v[0] and any(last(c[1]) == "resolve" and c[2][0] == ("fld", ("arg", 1), None, "ctx") and about(c[2][1], ("arg", 2)) for c in calls_in(p.ret))
        rep.check("trie", "resolving a %s condition" % v[0], ok, where(g), "a %s condition becomes a %s condition" % (v[0], p.ret[2]))
    return und


def fold(t):
    """how a character is turned into a key"""
    return "as written" if not calls_in(t) or all(last(c[1]) in ("next", "chars") for c in calls_in(t)) else "+".join(sorted({last(c[1]) for c in calls_in(t)} - {"next", "chars"}))


def weight(t):
    """(number of conditions, counts characters) of a weight term"""
    if t[0] == "bin" and t[1] in ("Add", "AddUnchecked", "AddWithOverflow"):
        a, b = weight(t[2]), weight(t[3])
        return (a[0] + b[0], a[1] or b[1]) if a and b else None
    if t[0] == "const" and isinstance(t[1], int):
        return t[1], False
    if t[0] == "call" and last(t[1]) in ("count", "len"):
        return (0, True) if last(t[1]) == "count" else (0, False)
    if t[0] == "fld" and t[3] in ("0",):
        return weight(t[1])
    return None


def trie_find(rep, P):
    f = one(P, "Trie::find_translations_from_node")
    und = n = 0
    seen = set()
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        calls = [e for e in p.events if e[0].endswith("find_translations_from_node")]
        first = ("call", None)
        step, kinds = None, {}
        for c, v in p.conds.items():
            if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next" and ("arg", 2) in list(flow.walk(c[1])):
                step = c[1]
            if c[0] == "discr" and c[1][0] == "fld" and v[0] == "=" and v[1] in ("Start", "End", "Character", "Any"):
                kinds[c[1]] = v[1]
            if c[0] == "call" and last(c[1]) == "matches" and v[0] == "=":
                k = next((k for b, k in kinds.items() if about(c[2][0], b)), None)
                if k not in ("Start", "End"):
                    und += 1
                    continue
                n += 1
                ok = c[2][1] == ("arg", 3) if k == "Start" else step is not None and src(c[2][1]) == step or about(c[2][1], ("arg", 2))
                if k == "End" and c[2][1] == ("arg", 3):
                    ok = False
                rep.check("find", "%s condition looks at the character %s the match" % (k, "before" if k == "Start" else "after"), ok, where(f),
                          "a %s condition is tested on the wrong neighbour" % k)
                rec = [e for e in calls if any(about(e[1][3], b[1]) for b in kinds if b[0] == "fld") and e[1][1] == ("arg", 2)]
                hit = v == ("=", 1)
                rep.check("find", "%s condition %s" % (k, "met" if hit else "not met"), bool(rec) == hit, where(f), "the rules behind a %s condition are %s although it is %s" % (k, "found" if rec else "not found", "met" if hit else "not met"))
                for e in rec:
                    rep.check("find", "%s condition consumes nothing" % k, e[1][1] == ("arg", 2) and e[1][2] == ("arg", 3), where(f), "a %s condition consumes input" % k)
        for c, v in p.conds.items():
            if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) in ("char_transition", "any_transition") and v == ("=", "+"):
                n += 1
                rec = [e for e in calls if about(e[1][3], c[1])]
                ok = len(rec) == 1
                if rest(rec[0][1][1]) is None if ok else False:
                    und += 1
                    continue
                ok = ok and rest(rec[0][1][1]) and rec[0][1][2][0] == "agg" and rec[0][1][2][2] == "Some" and (step is None or about(rec[0][1][2], step))
                rep.check("find", "%s step" % last(c[1][1]), ok, where(f), "after a character has matched the search does not go on behind it with it as the previous character")
        for c, v in p.conds.items():
            if c[0] == "discr" and c[1][0] == "fld" and c[1][3] == "translation" and v[0] == "=":
                inc = any(about(a, c[1]) for e in p.events if last(e[0]) in ("push", "extend", "insert") for a in e[1][1:])
                rep.check("find", "translation of a node %s" % ("present" if v[1] == "+" else "absent"), inc == (v[1] == "+"), where(f), "the rule that ends at a node is not among the candidates")
    rep.floor("conditions and steps of the search", n, 8)
    f = one(P, "ResolvedClasses::matches")
    for p in flow.Flow(P).paths(f):
        v = [v[1] for c, v in p.conds.items() if c == ("discr", ("arg", 2))]
        if p.div or p.trunc or len(v) != 1:
            und += 1
            continue
        names = {x[3] for x in flow.walk(p.ret) if x[0] == "fld"}
        neg = p.ret[0] == "un" and p.ret[1] == "Not" or p.ret[0] == "isv" and p.ret[2] == "Err"
        want = "chars" if v[0] == "+" else "includes_space"
        rep.check("find", "neighbour %s" % ("present" if v[0] == "+" else "missing"), want in names and not neg, where(f),
                  "a condition tests %s when the neighbour is %s" % (sorted(names), "present" if v[0] == "+" else "missing"))
    f = one(P, "ResolvedClasses::resolve")
    for p in flow.Flow(P).paths(f):
        if p.ret[0] != "agg" or p.div or p.trunc:
            und += 1
            continue
        v = dict(zip(p.ret[3], p.ret[4]))
        ch, sp = v.get("chars"), v.get("includes_space")
        if ch is None or sp is None:
            und += 1
            continue
        ok = about(ch, ("arg", 2)) and (mentions(P, ch, lambda c: last(c) == "get") or about(ch, ("arg", 1)))
        rep.check("find", "members of a condition", ok, where(f), "the characters of a condition are not those of its classes")
        sorts = [x for x in flow.walk(ch) if x[0] == "mut" and last(x[2]).startswith("sort")]
        btree = "BTree" in str(P.adts[[a for a in P.adts if a.endswith("ResolvedClasses")][0]])
        btree = btree or any("BTree" in str(c.name() if callable(c.name) else c.name) for c in f.calls()) or "BTree" in str(ch)
        search = mentions(P, ("fn", one(P, "ResolvedClasses::matches").path), lambda c: last(c).startswith("binary_search"))
        rep.check("find", "members are sorted for the search", bool(sorts) or not search or btree, where(f), "the members of a condition are searched by bisection but not sorted")
        spc = any(x[0] == "agg" and x[2] == "Space" for x in flow.walk(sp)) and about(sp, ("arg", 2)) and sp[0] != "un"
        rep.check("find", "edge of the text", spc or sp[0] not in ("call", "const", "un"), where(f), "the edge of the text does not count as a space")
    return und


def rest(t):
    """is the term the input behind its first character? None: cannot tell"""
    for x in flow.walk(t):
        if x[0] == "agg" and x[2] == "RangeFrom":
            s = x[4][0]
            if s[0] == "call" and last(s[1]) == "len_utf8":
                return True
            if s[0] == "const":
                return False
    if t == ("arg", 2):
        return False
    if t[0] == "call" and last(t[1]) == "as_str":
        return True
    return None


CLASS_WORDS = ("space", "digit", "litdigit", "letter", "uppercase", "lowercase", "punctuation", "sign", "math", "seqdelimiter", "seqbeforechars", "seqafterchars")
QUERIES = {"is_punctuation": {"Punctuation"}, "is_whitespace": {"Space"}, "is_numeric": {"Litdigit", "Digit"}, "is_word": {"Letter", "Uppercase", "Lowercase"}, "is_sign": {"Sign"}}


def classes(rep, P):
    und = n = 0
    f = [f for p, f in P.fns.items() if "CharacterClass as std::convert::From<&str>>::from" in p]
    if len(f) != 1:
        raise AnchorError("CharacterClass::from")
    f = f[0]
    table = {}
    for w in CLASS_WORDS + ("foo",):
        rs = set()
        for p in flow.Flow(P).paths(f, [("str", w)]):
            if p.trunc or p.div:
                continue
            rs.add(p.ret[2] if p.ret[0] == "agg" else None)
        if len(rs) != 1 or None in rs:
            und += 1
            continue
        n += 1
        v = rs.pop()
        want = "UserDefined" if w == "foo" else w.capitalize()
        rep.check("class", "name %s" % w, v == want, where(f), "the class name %s stands for %s" % (w, v))
    rep.floor("class names resolved", n, 12)
    for name, want in QUERIES.items():
        for f in [f for p, f in P.fns.items() if p.endswith("CharacterClasses::" + name)]:
            got = {x for p in flow.Flow(P).paths(f) for x in class_consts(P, f)}
            rep.check("class", name, got == want, where(f), "%s asks for the classes %s" % (name, sorted(got)))
    f = one(P, "CharacterClasses::insert")
    for p in flow.Flow(P).paths(f):
        ent = [e for e in p.events if last(e[0]) == "entry"]
        ins = [e for e in p.events if last(e[0]) == "insert"]
        if not ent or not ins:
            und += 1
            continue
        rep.check("class", "insert", ent[0][1][1] == ("arg", 2) and ins[-1][1][1] == ("arg", 3), where(f), "a character is entered into another class")
    f = one(P, "CharacterClasses::insert_dots")
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        one_cell = [v == ("=", 1) for c, v in p.conds.items() if c[0] == "bin" and c[1] == "Eq" and ("const", 1) in c[2:]]
        ins = [e for e in p.events if last(e[0]) in ("insert", "insert_dot")]
        if not one_cell:
            und += 1
            continue
        ins = [e for e in ins if about(("tuple", e[1]), ("arg", 3))]
        rep.check("class", "insert_dots single=%s" % one_cell[0], bool(ins) == one_cell[0] and all(about(("tuple", p.events[-1][1]), ("arg", 3)) or True for _ in ins), where(f),
                  "cells are %sentered into the class although there is %s cell" % ("" if ins else "not ", "one" if one_cell[0] else "more than one"))
    f = one(P, "CharacterClasses::insert_associated_dot")
    for p in flow.Flow(P).paths(f):
        if p.trunc or p.div:
            continue
        defined = [v == ("=", "+") for c, v in p.conds.items() if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "get"]
        one_cell = [v == ("=", 1) for c, v in p.conds.items() if c[0] == "bin" and c[1] == "Eq" and ("const", 1) in c[2:]]
        ins = [e for e in p.events if last(e[0]) in ("insert", "insert_dot") and e[1][1] == ("arg", 2)]
        if not defined:
            und += 1
            continue
        want = defined[0] and bool(one_cell) and one_cell[0]
        rep.check("class", "insert_associated_dot defined=%s single=%s" % (defined[0], one_cell), bool(ins) == want and all(about(e[1][2], ("arg", 4)) for e in ins), where(f),
                  "the cell of a class member is %sentered although defined=%s, single cell=%s" % ("" if ins else "not ", defined[0], one_cell))
    return und


def class_consts(P, f, seen=None):
    """character class constants used in a function and its closures"""
    seen = seen or set()
    if f.path in seen:
        return set()
    seen.add(f.path)
    out = set()
    for p in flow.Flow(P).paths(f):
        for t in [p.ret] + [a for e in p.events for a in e[1]] + list(p.conds):
            for x in flow.walk(t) if t else ():
                if x[0] == "agg" and x[1].endswith("CharacterClass"):
                    out.add(x[2])
    for g in P.fns:
        if g.startswith(f.path + "::{closure"):
            out |= class_consts(P, P.fns[g], seen)
    return out


def resolve_classes(rep, P):
    """before CLASS looks ahead, after CLASS looks behind"""
    f = one(P, "PrimaryTable::resolve_class_constraints")
    und = n = 0
    todo = [f] + [g for p, g in P.fns.items() if p.startswith(f.path + "::{closure")]
    for g in todo:
        for p in flow.Flow(P, prune=budget(1)).paths(g):
            if p.trunc or p.div:
                continue
            vs = {v[1] for c, v in p.conds.items() if c[0] == "discr" and v[0] == "=" and v[1] in ("Before", "After")}
            if len(vs) != 1:
                continue
            v = vs.pop()
            out = {x[2] for t in [p.ret] + [a for e in p.events for a in e[1]] for x in flow.walk(t) if x[0] == "agg" and x[1].endswith("ClassConstraint")}
            want = {"Before": "End", "After": "Start"}[v]
            known = [w for c, w in p.conds.items() if c[0] == "discr" and c[1][0] in ("call", "as", "ok") and any(last(k[1]) == "get" for k in calls_in(c[1]))]
            if not out:
                if known and all(w == ("=", "-") for w in known):
                    rep.ok("classes", "%s an undefined class" % v)
                else:
                    rep.bad("classes", "%s CLASS kept" % v, where(f), "the constraint %s CLASS is dropped although the class is defined" % v.lower())
                continue
            n += 1
            rep.check("classes", "%s CLASS" % v, out == {want}, where(f), "%s CLASS is checked on the wrong side of the match" % v.lower())
    if n == 0:
        und += 1
    rep.count("before/after constraints resolved", n)
    return und


PRECEDENCE = {"Translation": ("Word", "Begword", "Sufword", "Midword", "Midendword", "Endword", "Begmidword", "Joinword", "Begnum", "Midnum", "Endnum", "Always"),
              "Indicator": ("Capsletter", "Begcapsword", "Endcapsword", "Numsign", "Nonumsign")}


def precedence(rep, P):
    f = impl(P, "parser::Rule as parser::HasPrecedence", "precedence") if any("parser::Rule as parser::HasPrecedence" in p for p in P.fns) else \
        [f for p, f in P.fns.items() if p.endswith("::precedence") and "parser::Rule as" in p][0]
    adt = [a for a in P.adts if a.endswith("parser::Rule")][0]
    und = n = 0
    for v in P.adts[adt]["variants"]:
        v = v["name"]
        want = next((k for k, vs in PRECEDENCE.items() if v in vs), "Default")
        rs = {p.ret[2] if p.ret[0] == "agg" else None for p in flow.Flow(P).paths(f, [("agg", "crate::parser::Rule", v, (), ())]) if not p.trunc and not p.div}
        if len(rs) != 1 or None in rs:
            und += 1
            continue
        n += 1
        r = rs.pop()
        rep.check("precedence", v, r == want or v not in INSERTED, where(f), "a %s rule has the precedence %s, not %s" % (v, r, want))
    rep.floor("precedences resolved", n, 100)
    adt = [a for a in P.adts if a.endswith("::Precedence")]
    order = [v["name"] for v in P.adts[adt[0]]["variants"]] if adt else []
    rep.check("precedence", "order of the levels", order.index("Default") < order.index("Indicator") < order.index("Translation") if set(order) >= {"Default", "Translation", "Indicator"} else False,
              "", "the precedence levels are ordered %s" % order)
    return und


INSERTED = {v for v, x in PRIMARY.items() if any("trie(" in s or "insert_character" in s or "insert_backward" in s for s in x)}
PARTS = {"ComputerBraille": "computer_braille_indicator", "Emphasis": "emphasis_indicator", "Numeric": "numeric_indicator", "LetterSign": "lettersign_indicator",
         "Uppercase": "uppercase_indicator", "NoContract": "nocontract_indicator"}
CPARTS = {"Numeric": "numeric_constrainer", "BackwardCaps": "backward_caps_constrainer", "BackwardNumeric": "backward_numeric_constrainer",
          "Hyphenation": "hyphenation_constrainer", "Punctuation": "punctuation_constrainer"}
FORWARD_ONLY = {"Hyphenation", "Punctuation"}


def build(rep, P):
    """everything the builder has collected ends up in the table, each part in its own place"""
    f = one(P, "PrimaryTableBuilder::build")
    und = 0
    adt = P.adts[[a for a in P.adts if a.endswith("PrimaryTableBuilder")][0]]
    own = {x["name"] for x in adt["variants"][0]["fields"]} if isinstance(adt["variants"][0]["fields"][0], dict) else {x[0] for x in adt["variants"][0]["fields"]}
    n = 0
    for d in DIR:
        for p in flow.Flow(P).paths(f, [("arg", 1), DIR[d], ("arg", 3)]):
            if p.trunc or p.div or p.ret[0] != "agg":
                und += 1
                continue
            got = dict(zip(p.ret[3], p.ret[4]))
            for k, t in got.items():
                if k in own:
                    n += 1
                    used = {x[3] for x in flow.walk(t) if x[0] == "fld" and x[1] == ("arg", 1)}
                    rep.check("build", "%s, %s" % (k, d), used == {k}, where(f), "%s of the table is taken from %s of the builder" % (k, sorted(used)))
            rep.check("build", "direction, %s" % d, got.get("direction", DIR[d]) == DIR[d], where(f), "the table is built for the other direction")
            rep.check("build", "fallback definitions, %s" % d, any(last(c[1]) == "character_definitions" for c in calls_in(got.get("fallback_definitions", ("k",)))) or "fallback_definitions" not in got, where(f), "fallbacks are not taken from the definitions")
            for key, parts in (("indicators", PARTS), ("constrainers", CPARTS)):
                arr = [x for x in flow.walk(got.get(key, ("k",))) if x[0] == "array"]
                if not arr:
                    und += 1
                    continue
                order = []
                for el in arr[0][1]:
                    names = {x[1].split("::")[-1] for x in flow.walk(el) if x[0] == "fn"} | {x[2] for x in flow.walk(el) if x[0] == "agg" and x[1].endswith(("::Constrainer", "::Indicator"))}
                    for nm_ in names & set(parts):
                        order.append(nm_)
                        caps = ("tuple", tuple(c for x in flow.walk(el) if x[0] == "closure" for c in x[2]))
                        used = {x[3] for x in flow.walk(el) if x[0] == "fld" and x[1] == ("arg", 1)} | {x[3] for x in flow.walk(caps) if x[0] == "fld" and x[1] == ("arg", 1)}
                        if not used:
                            used = closure_fields(P, el)
                        if used:
                            n += 1
                            rep.check("build", "%s %s, %s" % (key, nm_, d), used == {parts[nm_]}, where(f), "the %s part is built from %s" % (nm_, sorted(used)))
                        else:
                            und += 1
                        gates = [c[2][0] for c in calls_in(el) if last(c[1]) in ("then", "then_some")]
                        head = el
                        while head[0] == "call" and head[2] or head[0] in ("map", "maperr"):
                            head = head[2][0] if head[0] == "call" else head[1]
                        if head[0] == "agg" and head[2] == "None":
                            gates = [("const", 0)]
                        consts = [g[1] for g in gates if g[0] == "const"]
                        if len(consts) == len(gates):
                            rep.check("build", "%s %s takes part, %s" % (key, nm_, d), all(consts) == (d == "Forward" or nm_ not in FORWARD_ONLY), where(f),
                                      "%s %s takes part in %s translation" % (key, nm_, d.lower()) if all(consts) else "%s %s takes no part in %s translation" % (key, nm_, d.lower()))
                        else:
                            und += 1
                if key == "indicators" and set(order) == set(PARTS):
                    rep.check("build", "order of the indicators, %s" % d, order.index("ComputerBraille") < order.index("Emphasis") < order.index("Uppercase"), where(f),
                              "indicators are put in the order %s" % order)
                for m in set(parts) - set(order):
                    if arr and not (d == "Backward" and m in FORWARD_ONLY):
                        if any(x[0] in ("closure",) for x in flow.walk(got[key])):
                            und += 1
                        else:
                            rep.bad("build", "%s %s missing, %s" % (key, m, d), where(f), "%s %s is never part of the table" % (key, m))
    rep.floor("parts of the table followed from the builder", n, 30)
    return und


def closure_fields(P, t):
    out = set()
    for x in flow.walk(t):
        if x[0] == "closure" and x[1] in P.fns:
            for p in flow.Flow(P).paths(P.fns[x[1]]):
                for u in [p.ret] + [a for e in p.events for a in e[1]]:
                    out |= {y[3] for y in flow.walk(u) if y[0] == "fld" and y[3].endswith(("_constrainer", "_indicator"))}
    return out


def spec_for(lines, d):
    must, may, maybe = [], [], []
    for s in lines:
        if s[0] in "<>":
            if (s[0] == "<") != (d == "Backward"):
                continue
            s = s[1:]
        (may if s[0] == "?" else maybe if s[0] == "~" else must).append(s.lstrip("?~"))
    return must, may, maybe


def runs(p, s, b):
    """an effect on each element happens where there is an element"""
    need = [s[m:s.index(")", m) + 1] for m in range(len(s)) if s.startswith("each(", m)]
    have = {nm(c[1]) for c, v in p.conds.items() if c[0] == "discr" and c[1][0] == "call" and last(c[1][1]) == "next" and v == ("=", "+") and about(c[1], b)}
    return all(n in have for n in need)


def infeasible(p):
    """an empty set contains nothing"""
    for c, v in p.conds.items():
        if c[0] == "call" and last(c[1]) in ("contains", "contains_key") and v == ("=", 1) and c[2][0][0] == "call" and last(c[2][0][1]) in ("new", "default") and not c[2][0][2]:
            return True
    return False


def guard_state(p, s, b):
    """outcome of the documented condition of effect s on this path: True, False or None"""
    g = next((g for k, g in GUARDS.items() if s.startswith(k)), None)
    if g is None:
        return None
    state = None
    for c, v in p.conds.items():
        if not about(c, b):
            continue
        t = src(c[1]) if c[0] == "discr" else c
        op = last(t[1]).lower() if t[0] in ("call", "bin") else ""
        if g[0] == "name" and op in ("eq", "ne") and v[0] == "=":
            lit = [x[1] for x in flow.walk(t) if x[0] == "str"]
            if lit and (op == "eq") == (v[1] == 1):
                return lit[0] in ("uppercase", "lowercase") and guard_state(p, "classes.insert(class(name),derived)", b) is not False
            state = False if lit else state
        if t[0] != "call":
            continue
        n = last(t[1])
        if g[0] == "definition" and n in ("get", "contains_key") and "each" not in n and "definition" in nm(t) and v[0] == "=":
            return v[1] in ("+", 1)
        if n == g[0] and v[0] == "=" and v[1] in (0, 1):
            return v[1] == g[1]
    return state


def closure_does(P, p, name):
    callee = name.split("(")[0].split(".")[-1]
    if callee in ("trie", "comp6_trie", "definitions", "classes", "dotclasses"):
        callee = "insert"
    for e in p.events:
        for a in e[1]:
            if any(x[0] == "closure" for x in flow.walk(a)) and mentions(P, a, lambda c: last(c).startswith(callee)):
                return True
    return False


def primary(rep, P):
    fs = [f for p, f in P.fns.items() if p.endswith("PrimaryTable::compile")]
    if len(fs) != 1:
        raise AnchorError("PrimaryTable::compile")
    f = fs[0]
    loc = "%s:%d" % (f.file, f.line)
    und = n = 0
    for d in ("Forward", "Backward"):
        args = [("arg", 1), ("agg", "crate::Direction", d, (), ()), ("arg", 3), ("arg", 4)]
        paths = [p for p in flow.Flow(P, prune=budget(1)).paths(f, args)]
        u, k = compare(rep, P, "table", PRIMARY, paths, d, loc, False)
        und += u
        n += k
        und += misc(rep, P, paths, d, loc)
    rep.floor("rule kinds compiled (both directions)", n, 100)
    return und


def context(rep, P):
    fs = [f for p, f in P.fns.items() if p.endswith("TableContext::compile")]
    if len(fs) != 1:
        raise AnchorError("TableContext::compile")
    f = fs[0]
    paths = flow.Flow(P).paths(f)
    u, k = compare(rep, P, "context", CONTEXT, paths, None, "%s:%d" % (f.file, f.line), True)
    rep.floor("rule kinds entered into the classes and definitions", k, 18)
    return u


# which class of characters each part of the table is told about
FEEDS = {("numeric_indicator", "numeric_characters"): ["Litdigit"], ("numeric_constrainer", "numeric_characters"): ["Litdigit"],
         ("uppercase_indicator", "uppercase_characters"): ["Uppercase"], ("uppercase_indicator", "letter_characters"): ["Letter"],
         ("hyphenation_constrainer", "letter_characters"): ["Letter"], ("punctuation_constrainer", "letter_characters"): ["Letter"],
         ("punctuation_constrainer", "letter_or_digit_characters"): ["Digit", "Letter"], ("punctuation_constrainer", "space_characters"): ["Space"]}
BACKFEEDS = {("backward_numeric_constrainer", "letter_cells"): ["Letter"], ("backward_caps_constrainer", "letter_cells"): ["Letter"],
             ("backward_numeric_constrainer", "digit_cells"): ["Digit", "Litdigit"]}


# of which rules of the table a set is gathered, and which operand
GATHER = {"literary digits": {"Litdigit": "character"}, "cells of letters": {"Letter": "dots", "Lowercase": "dots", "Uppercase": "dots"}}


def gathered(P, t):
    """{kind of rule: the operand that goes into the set t}; None if it is not made by picking from the rules"""
    while t[0] == "call" and t[2] and last(t[1]) in ("collect", "into_iter", "iter", "from_iter", "copied", "cloned", "clone", "into", "from", "unwrap_or_default"):
        t = t[2][0]
    if t[0] == "call" and not t[2] and last(t[1]) in ("new", "default"):
        return {}
    if not (t[0] == "call" and last(t[1]) in ("filter_map", "flat_map") and len(t[2]) == 2 and t[2][1][0] in ("closure", "fn")):
        return None
    b = t[2][0]
    while b[0] == "call" and last(b[1]) in ("iter", "into_iter", "by_ref") and len(b[2]) == 1:
        b = b[2][0]
    f = P.fns.get(t[2][1][1])
    if b != ("arg", 1) or f is None:
        return None
    out = {}
    for p in flow.Flow(P).paths(f):
        v = list(variant_of(p).values())
        if p.trunc or p.ret is None or p.ret[0] != "agg" or len(v) > 1 or len(p.conds) > len(v):
            return None
        if p.ret[2] == "None":
            continue
        if p.ret[2] != "Some" or not v or v[0][0] != "=":
            return None
        out[v[0][1]] = nm(p.ret[4][0])
    return out


def gather(rep, P, p, d, loc, done):
    """the sets of literary digits and of cells of letters, where they are asked"""
    und = 0
    asked = [("cells of letters", e[1][3]) for e in p.events if last(e[0]) == "register_backward_digit_override" and len(e[1]) > 3] + \
        [("cells of letters", e[1][2]) for e in p.events if last(e[0]) == "backward_indicator_dots_available" and len(e[1]) > 2]
    if d == "Forward":
        asked = [("literary digits", c[2][0]) for c in p.conds if c[0] == "call" and last(c[1]) == "contains" and "HashSet" in c[1] and len(c[2]) == 2
                 and c[2][1][0] == "fld" and c[2][1][2:] == ("Digit", "character")]
    for what, t in asked:
        if (what, t) in done:
            continue
        done.add((what, t))
        got = gathered(P, t)
        if got is None:
            und += 1
            continue
        rep.check("gather", "%s (%s)" % (what, d), got == GATHER[what], loc, "the %s are gathered of %s instead of %s" % (what, ", ".join("%s(%s)" % x for x in sorted(got.items())) or "nothing", ", ".join("%s(%s)" % x for x in sorted(GATHER[what].items()))))
    return und


def misc(rep, P, paths, d, loc):
    """the classes handed to the indicators, and the order in which definitions are compiled"""
    und = 0
    done = set()
    for p in paths:
        und += gather(rep, P, p, d, loc, done)
    want = {**FEEDS, **(BACKFEEDS if d == "Backward" else {})}
    first = {}
    for p in paths:
        if p.trunc or p.div or p.ret is None or p.ret[0] != "agg" or p.ret[2] != "Ok":
            continue
        seen = {}
        nexts = []
        for e in p.events:
            r = receiver(e[1][0]) if e[1] else ("k",)
            key = (nm(r) if r[0] == "fld" else "", last(e[0]))
            if key in want or key in BACKFEEDS:
                seen[key] = e
            if last(e[0]) == "next" and e[1][0][0] not in ("mut",):
                nexts.append(e[3] if len(e) > 3 else e[2])
        for key, cl in want.items():
            if key not in seen:
                rep.bad("feeds", "%s.%s %s" % (key + (d,)), loc, "%s is never told its %s" % key)
                continue
            e = seen[key]
            got = set()
            for x in flow.walk(e[1][1]):
                if x[0] == "agg" and x[1].endswith("CharacterClass"):
                    got.add(x[2])
                if x[0] == "mut" and last(x[2]) in ("extend", "insert"):
                    ev = [y for y in p.events if y[2] == x[1]]
                    for y in ev:
                        got |= {z[2] for a in y[1][1:] for z in flow.walk(a) if z[0] == "agg" and z[1].endswith("CharacterClass")}
            src_ = {last(c[1]) for c in calls_in(e[1][1])} & {"character_classes", "dots_classes"}
            ok = sorted(got) == cl and (src_ == ({"dots_classes"} if key in BACKFEEDS else {"character_classes"}) or not src_)
            if ok:
                rep.ok("feeds", "%s.%s %s" % (key + (d,)))
            elif not got:
                und += 1
            else:
                rep.bad("feeds", "%s.%s %s" % (key + (d,)), e[3] if len(e) > 3 else loc, "%s is told the characters of %s (%s) instead of %s" % (".".join(key), sorted(got), ",".join(sorted(src_)), cl))
        for b, v in variant_of(p).items():
            if v[0] == "=":
                eff = effects(p, b, False)
                if any(x[0].startswith("insert_character(character") for x in eff):
                    l = [e[3] if len(e) > 3 else e[2] for e in p.events if last(e[0]) == "next" and ("call", e[0], e[1], e[2]) in list(flow.walk(b))]
                    if l and l[0] in nexts:
                        first.setdefault(v[1], set()).add((nexts.index(l[0]), tuple(nexts)))
    for v in ("Hyphen", "Decpoint"):
        for w in ("Punctuation", "Sign", "Math"):
            a, b = first.get(v), first.get(w)
            if not a or not b:
                und += 1
                continue
            rep.check("order", "%s before %s %s" % (v, w, d), max(i for i, _ in a) < min(i for i, _ in b), loc, "%s rules are not compiled before %s rules, so they no longer win" % (v, w))
    return und


def compare(rep, P, what, spec, paths, d, loc, names):
    und = 0
    groups = collections.defaultdict(list)      # variant -> [(path, base)]
    others = []
    for p in paths:
        if p.trunc or p.div or infeasible(p) or p.ret is None or p.ret[0] == "agg" and p.ret[2] == "Err" or p.ret[0] == "resid":
            continue
        for b, v in variant_of(p).items():
            if v[0] == "=":
                groups[v[1]].append((p, b))
            else:
                others.append((p, b, v[1]))
    done = 0
    for v, lines in sorted(spec.items()):
        must, may, maybe = spec_for(lines, d)
        per_loop = collections.defaultdict(list)
        for p, b in groups.get(v, ()):
            eff = effects(p, b, names)
            upd = [("=%s(%s)" % (k, nm(val)), None, ()) for k, val in assigned(p, b)]
            per_loop[loop_id(b)].append((p, eff + upd, b))
        filled = {s[:s.index("(")] for x in per_loop.values() for _, e, _ in x for s, *_ in e if "mut:" in s}
        for x in per_loop.values():         # where such a list stays empty, nothing is decided either
            for _, e, _ in x:
                e[:] = [("…" + y[0],) + tuple(y[1:]) if "(" in y[0] and y[0][:y[0].index("(")] in filled else y for y in e]
        acting = {k: x for k, x in per_loop.items() if any(e for _, e, _ in x)}
        inst = "%s %s" % (v, d or "")
        if not acting:
            if not must and not may:
                continue
            lost = any(v not in ex for _, _, ex in others) or v in groups
            if any(closure_does(P, p, s) for p, _ in groups.get(v, ()) for s in must + may) or any(closure_does(P, p, s) for p, _, ex in others if v not in ex for s in must + may):
                und += 1
            elif lost:
                rep.bad(what, inst, loc, "compiling a %s rule%s has no effect" % (v, " " + d.lower() if d else ""))
            else:
                und += 1
            continue
        done += 1
        # effects per path over all loops that act on the rule
        seen, every, guarded = set(), None, True
        allowed = set(must) | set(may) | set(maybe)
        for k, lst in acting.items():
            for p, eff, b in lst:
                got = [e[0] for e in eff]
                seen |= set(got)
                for s, e, a in eff:
                    if s in allowed:
                        continue
                    if undecidable(s):
                        und += 1
                        continue
                    rep.bad(what, "%s: %s" % (inst, s), e[3] if e and len(e) > 3 else loc, "compiling a %s rule does %s; it is defined to do %s" % (v, s, " and ".join(must + may)))
        for s in must:
            # some loop does it on every path
            ok = any(all(s in [e[0] for e in eff] for p, eff, b in lst if runs(p, s, b)) and any(s in [e[0] for e in eff] for p, eff, b in lst) for lst in acting.values())
            if ok:
                rep.ok(what, "%s: %s" % (inst, s))
            elif any(undecidable(x) for x in seen) or any(closure_does(P, p, s) for lst in acting.values() for p, _, _ in lst):
                und += 1
            elif s in seen:
                lst = [x for x in acting.values() if any(s in [e[0] for e in eff] for _, eff, _ in x)][0]
                c = [cond_text(p, b) for p, eff, b in lst if s not in [e[0] for e in eff]]
                rep.bad(what, "%s: %s" % (inst, s), loc, "compiling a %s rule does not always do %s, only unless %s" % (v, s, c[:1]))
            else:
                rep.bad(what, "%s: %s" % (inst, s), loc, "compiling a %s rule does not do %s" % (v, s))
        for s in may:
            if s in seen:
                rep.ok(what, "%s: %s (conditional)" % (inst, s))
                for lst in acting.values():
                    for p, eff, b in lst:
                        g = guard_state(p, s, b)
                        has = s in [e[0] for e in eff]
                        if not runs(p, s, b):
                            continue
                        if g is None:
                            und += has
                        elif g != has and not (not has and any(undecidable(e[0]) for e in eff)):
                            rep.bad(what, "%s: condition of %s" % (inst, s), loc, "compiling a %s rule does %s%s although its condition %s" % (
                                v, "" if has else "not ", s, "holds" if g else "does not hold"))
                        else:
                            rep.ok(what, "%s: condition of %s is %s" % (inst, s, g))
            elif any(undecidable(x) for x in seen) or any(closure_does(P, p, s) for lst in acting.values() for p, _, _ in lst):
                und += 1
            else:
                rep.bad(what, "%s: %s" % (inst, s), loc, "compiling a %s rule never does %s" % (v, s))
    return und, done


def undecidable(s):
    return "mut:" in s or "…" in s or "closure" in s


def cond_text(p, b):
    return "; ".join("%s is %s" % (nm(c)[:80], v[1]) for c, v in p.conds.items() if not (c[0] == "discr" and "next" in short(c)[:16]))[:200]


def assigned(p, b):
    """fields of the result that were assigned from the rule (builder.undefined = ...)"""
    out, seen = [], set()
    ts = [p.ret] + [a for e in p.events for a in e[1]]
    for t in ts:
        for x in flow.walk(t):
            if x[0] == "upd":
                for k, val in (x[2].items() if isinstance(x[2], dict) else x[2]):
                    kk = k[-1] if isinstance(k, tuple) else k
                    if isinstance(val, tuple) and val and val[0] != "mut" and about(val, b) and (kk, val) not in seen and not receiver_like(val):
                        seen.add((kk, val))
                        out.append((kk, val))
    return out


def receiver_like(t):
    return t[0] in ("mut", "upd")


def loop_id(b):
    for x in flow.walk(b):
        if x[0] == "call" and last(x[1]) == "next":
            return x[3] if len(x) > 3 else x
    return b
