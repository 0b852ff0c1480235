"""Truth tables of guard terms: decides, for each region of the quantities a guard compares, whether a path's guards admit it."""
import itertools
from terms import last

CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}
NAMES = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}


class NoValue(Exception):
    pass


def value(t, leaf):
    """value of a guard term, given the values of its leaves (leaf: term -> value or None)"""
    v = leaf(t)
    if v is not None:
        return v
    if t[0] == "const":
        return t[1]
    if t[0] == "char":
        return t[1]
    if t[0] == "bin":
        a, b = value(t[2], leaf), value(t[3], leaf)
        if t[1] in CMP:
            return int(CMP[t[1]](a, b))
        if t[1] in ("Add", "Sub"):
            return a + b if t[1] == "Add" else a - b
        if t[1] in ("BitAnd", "BitOr", "BitXor"):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[t[1]]
    if t[0] == "un" and t[1] == "Not":
        return int(not value(t[2], leaf))
    if t[0] == "call" and last(t[1]) in NAMES and len(t[2]) == 2:
        return int(CMP[NAMES[last(t[1])]](value(t[2][0], leaf), value(t[2][1], leaf)))
    if t[0] == "call" and last(t[1]) == "is_empty" and len(t[2]) == 1:
        return int(value(("call", "len", t[2], 0), leaf) == 0)
    if t[0] == "call" and last(t[1]) in ("saturating_sub", "saturating_add"):
        a, b = value(t[2][0], leaf), value(t[2][1], leaf)
        return max(0, a - b) if last(t[1]) == "saturating_sub" else a + b
    if t[0] == "call" and last(t[1]) in ("min", "max"):
        return {"min": min, "max": max}[last(t[1])](value(t[2][0], leaf), value(t[2][1], leaf))
    raise NoValue(t)


def admits(conds, leaf, relevant=None):
    """do the guards (term -> ('=',v) or ('!=',set)) hold?  Guards for which relevant() is false are skipped."""
    for c, v in conds:
        if relevant and not relevant(c):
            continue
        x = value(c, leaf)
        x = int(x) if isinstance(x, bool) else x
        if v[0] == "=" and x != v[1]:
            return False
        if v[0] == "!=" and x in v[1]:
            return False
    return True


def table(domains):
    """all assignments of the named domains"""
    ks = list(domains)
    for vs in itertools.product(*[domains[k] for k in ks]):
        yield dict(zip(ks, vs))
