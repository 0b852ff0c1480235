"""writes DESIGN.md: the text below, and a section per property from the rules' own explanations and the planted bugs"""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(ROOT, "checker")]

HEAD = """# Design

This file is written by `tools/mkdesign.py` from the explanations in the rules themselves (`checker/rules/*.py`), the
properties and the planted bugs, so that it does not drift from them.

## The machinery

Everything is static analysis of the type-checked program. No check runs the library, a test or a solver.

* `checker/driver` is a `rustc` driver (nightly, `rustc_private`, no dependencies). It is run in place of rustc by `cargo check`
  on a copy of the manifest with a target directory of its own, and writes the MIR of every function of both crates (library
  and command line tool), their types, trait implementations, statics, macro backtraces and resolved callees as JSON. `prog.py`
  reads it. It runs on every check, on /repo's working tree as it is then; facts are not kept from run to run.
* `flow.py` enumerates the paths of a function over MIR, with terms for values: constants, aggregates, fields, calls with their
  arguments, closures with their captures. Conditions of a path are what its discriminants and calls were decided to be. The
  usual combinators of the standard library (`Option`, `Result`, iterators, entries of maps) are rewritten so that `match`, `if
  let`, `?`, `map_or_else` and the like come out as the same conditions. Functions that are not in the recorded list of the
  functions of the original tree (`baseline.json`) are followed into, so that an extracted helper changes nothing; the rules
  find the functions they judge by role (what they are called by, what type they build) or by name.
* `words.py` reads functions as decision trees over *unnamed* texts: characters are known only by the sets they are in,
  positions by number, sequences by their bounds. All branches of loops are followed up to a length of the text. It is an
  abstract interpreter with an explicit disjunction per fact, not a symbolic executor: no path goes to a solver, and the outcome
  of each branch is compared with a definition that is a function over the same facts, written down in the rule.
* `seq.py`, `terms.py`, `roles.py`, `truth.py`, `grammar.py`, `gates.py` hold what several rules share: pipelines of iterators,
  what a container of the tables holds (found by how it is filled), truth tables of predicates, the notation of patterns, and
  the conditions under which the main loop uses a candidate.

Three answers are kept apart. What is read and agrees counts as discharged. What is read and disagrees is a violation, with
file, line and construct. What is *not* resolved (a term the rewriting does not know, a loop it cannot bound) is undecided: it
is counted in the evidence and never reported as a violation. Floors (`rep.floor`) on the number of resolved cases make a rule
that has lost its subject altogether fail loudly only where an anchor (a named function or type of the public structure) is
gone.

Levels: C03 is a proof by the type system under C04. The others are `other`: decided for every table and text as far as the
stated bounds go (texts of a few unnamed characters, two steps of a loop), not for unbounded texts.

Cost: about 3 s for the extraction, then 1 to 10 s for most checks; C01 about 2.5 min, C22 about 1.5 min, C17 and C20 about
half a minute.

Quick and thorough differ in bounds (texts one character longer, both settings of `backwards_compatibility`).

## What was found

Defects were found by the checks or while reading for them; each was shown against the real code before it was repaired. The 27
repairs are the `fix:` commits in /repo, listed in `known-findings.json` under `fixed`:

@FIXED@

One is recorded and not repaired (`known`): @KNOWN@

Noticed and left alone, because they are choices of the program, lie outside the properties, or are documented as unfinished:
nested groups of some hundred thousand levels exhaust the stack (C01 leaves the stack out); `\\x+123` is read as a number; an
undefined class name in a constraint is dropped without an error; `grouping` accepts nofor and noback and is compiled to
nothing; `repeated` is not compiled; a quantifier after several literal characters of a match pattern applies to all of them;
the error about a table that cannot be read does not name the file; the tool exits with 0 after an error; test modes `display`
and `hyphenate` run nothing; a pattern given twice in a dictionary counts with its last value; word and phrase emphasis of two
classes are not closed in reverse order.

## How the checks were tested

* Planted bugs: `seeded/`, each with a demonstration that was confirmed to pass on the unchanged tree and to fail with the bug.
* Mutations: some 350 small changes to single functions, bugs and edits that keep the behaviour, were run against the check of the
  property they concern while it was written. Bugs that a check missed led to a wider rule or are named under its assumptions.
* Refactorings: some 200 edits that keep the behaviour (helpers extracted, loops turned into iterator chains and back, `match`
  into `if let`, statements reordered, early returns) were applied together to one tree; all checks have to be quiet on it.
  False alarms found that way were corrected in the rules: a reset of a vector through `into_iter().filter().collect()`, a table
  compiled in a helper, an error collected in a `match` in place of a closure, a gate written as a `match` on the direction,
  debug assertions that compare a number of bytes with one of characters.

"""

TAIL = """
## Not applicable

@NA@
"""


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    known = json.load(open(os.path.join(ROOT, "known-findings.json")))
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    seeds = {}
    for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d.get("missed")))
    fixed = "\n".join("* %s `%s` %s" % tuple([x.split()[1].split("=")[1], x.split()[2], " ".join(x.split()[3:])]) for x in known["fixed"])
    kn = "; ".join("%s, %s" % (x["property"], x.get("what") or x.get("why") or x.get("key")) if isinstance(x, dict) else str(x) for x in known["known"])
    out = HEAD.replace("@FIXED@", fixed).replace("@KNOWN@", kn)
    out += "## The properties\n"
    na = {x["property"]: x["reason"] for x in man["not_applicable"]}
    for p in props:
        if p["id"] in na:
            continue
        mod = importlib.import_module("rules." + p["id"].lower())
        out += "\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
        out += "*How it is decided* (%s). %s\n\n" % (mod.LEVEL, mod.EXPLANATION)
        out += "*Bounds and assumptions.* %s.\n" % "; ".join(a.rstrip(".") for a in mod.ASSUMPTIONS)
        if p["id"] in seeds:
            out += "\n*Planted bugs.* " + "; ".join("`%s` (%s): %s" % (n, w, "missed" if miss else "caught") for n, w, miss in seeds[p["id"]]) + ".\n"
    out += TAIL.replace("@NA@", "\n".join("* %s %s: %s" % (p["id"], p["title"], na[p["id"]]) for p in props if p["id"] in na) or "None.")
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(out)


main()
