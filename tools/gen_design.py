#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, completed with the statements, rules, findings and planted changes on file."""
import ast
import json
import pathlib
import re

V = pathlib.Path(__file__).resolve().parents[1]

HEAD = """# Static verification of nevergrad: design

Everything here decides properties from the sources of /repo, parsed anew at every run. Nothing of nevergrad is executed or
imported: the checks are plain Python 3 (standard library only, `ast`), and also work on a tree which does not build.

    python3 check.py P05                    # quick
    python3 check.py P05 --tier thorough    # same rules, deeper loop unrolling and inlining where a rule has such bounds
    tools/all.sh                            # all of them, in parallel

Exit 0: all instances of all rules hold (known findings are printed). Exit 1: `VIOLATION property=<id> replay=<path>`, where
the replay file lists, for each violation, the file and line, the construct, the rule and the path (branches taken, events) which
breaks it. Exit 2 (`ANALYSIS-BROKEN`): a construct the analysis relies on disappeared, or a rule found fewer instances than the
minimum confirmed by hand, so that a silent loss of coverage is not mistaken for a proof.

## Why static analysis reaches what the tests cannot

The properties quantify over every path (an exception at a particular call, an unusual configuration, a branch for one
dimension only), every class (more than 100 optimizers, parameters, layers, plans) and every call site. The tests sample a few histories of a few
classes. Each check enumerates *all* the instances of its rules in the current sources (classes are found by
subclassing, call sites by resolution, never by a list of names when it can be avoided) and decides each on all the paths of
the functions concerned. A new optimizer, callback or plan is therefore covered the day it is written.

## Machinery (`nvsa/`)

* `project.py`: parses the package; resolves names, imports, attributes, classes (MRO), call targets, overrides; gives every
  expression its enclosing function and every class its subclasses.
* `interp.py`: path enumeration by abstract interpretation. A function is explored over *canonical terms* (parameters, attributes,
  calls, items, constants, binary operations), with a heap for fresh objects (lists, dicts, instances, copies), inlining of helpers, properties,
  constructors and `super()`; `with`, `try/except/finally`, generators (context managers with succeeding and failing bodies), comprehensions,
  loops unrolled 0, 1, 2 times. Branch conditions are normalised (`not`, `is not`, reversed comparisons, De Morgan), and contradictory
  branches are pruned. Each path carries its conditions, its ordered events (calls, attribute and item writes, iterations, caught exceptions, yields),
  its exit and its final heap. A *policy* per rule says what is opaque (the extension points), which calls may raise, which
  conditions split the exploration. The rules compare terms and events, never source text: renaming, extracting helpers, reordering independent statements,
  inverting tests or rewriting loops leave them unchanged.
* `flow.py`: forward dataflow over statements (reaching definitions, must/may state) for the rules which need no path.
* `report.py`: rules, obligations, findings, evidence, known findings. A finding is identified by (rule, construct), never by a
  line number, so that edits elsewhere neither hide nor create one.
* `rules/pXX.py`: one file per property.

What the evidence files report: for each rule its text, the number of instances decided, the violated ones, the constructs; the functions analysed, the
number of paths and events, the modules parsed, notes on what was left out.

### General assumptions and limits

* Ordinary Python semantics: no monkey-patching of nevergrad, no `setattr`/`getattr` with computed names other than those the
  interpreter resolves, no `exec`. Users' subclasses are not in the tree, hence not analysed; the extension points they override are opaque and
  may do anything their contract allows.
* Loops are explored up to two iterations (more where a rule says so): the rules are about per-iteration effects and what holds at the exit, for which two
  iterations distinguish first, next and last. This is a bound, not an induction proof.
* Third-party libraries are opaque. Where they matter (seeded solvers, picklability), a table in the rule file says what is assumed.
* Level: `other` everywhere. The checks decide enumerated rules from which the property follows under the assumptions listed; they are not machine-checked proofs.
* Excluded: tests, `common/testing.py`, examples; the benchmark layer only enters in P11, P19, P23 and P25.
* pySOT is not installable here and its wrapper not importable: it is parsed, but nothing confirms what is assumed of it.
"""

NOTES = {
    "P01": "Oracle: provenance of the generator of every draw. Callbacks (file names, reports) are excluded from the hash-order rule. PymooCMAES is not reproducible because pymoo's vendored CMA ignores the seed it receives: that is outside the sources analysed. A recast optimizer rebuilt from a pickle replays its tells, which draws again from the same random state: the replayed run is itself seeded.",
    "P02": "Oracle: the typestate frozen/unfrozen of each object on each path. `_OnePlusOne.__init__` and `SplitOptimizer` adapt flags of the parametrization they received at construction, before the run: not covered by the statement.",
    "P03": "Oracle: an ownership table of all attributes of each class. Pyomo copies keep constraint checkers bound to the original's model (functions/pyomo cannot be imported by the tests here).",
    "P04": "Writing through a nested container (`container['sub']['x'] = ...`) does not reach the outer container, whose remembered sizes then describe the old content: the statement is restricted to changes made through the parameter itself.",
    "P05": "Oracle: counting of effects per path from an arbitrary state. The extension points (`_internal_*`) are opaque, and package-wide enumeration of writers shows that none of them touches the accounting.",
    "P06": "Oracle: a symbolic ledger asked / submitted / queued / told per path. The executor contract (submit returns a job with done() and result()) is assumed. Two consecutive calls of minimize are covered by exploring from an arbitrary resumable state.",
    "P07": "Oracle: comparison evidence on the path. The numerical meaning of the bounds (upper confidence bound formula) is out of scope.",
    "P08": "User-supplied callables and third-party objects are out of scope (assumed picklable unless built here from a lambda). `_messaging_thread` of batch recast optimizers, which the library documents as not dumpable after the first ask, is exempt; callbacks.py and common/testing.py are excluded. Jobs of executors kept by minimize: known finding.",
    "P09": "The two threads only share two queues (queue-owners rule): with this, deciding each side on its own paths covers every interleaving. 'each ask is told before the next' is assumed for sequential wrappers, as their documentation asks.",
    "P10": "Dominated volume is an opaque function of the kept points: only the way it is used to keep or drop a point is decided; its value is N03.",
    "P11": "Draws inside the constructors of functions (nevergrad/functions) are out of scope: an experiment copies its function after seeding. Nested objective functions run after seeding. `np.random.seed(seed)` with the plan's seed is allowed. Known findings are keyed by plan, generator function and number of draws, so that a new draw is reported.",
    "P12": "'Effective use' is a def-use notion: an option read only in a branch which the other options make unreachable counts as used. Branches comparing an option to a value which is not accepted are not flagged.",
    "P13": "Nested composites without crossing overwrite `_meta['optim_index']` of each other and pruning of portfolios shifts indices: the attribution rule decides the innermost recorded index only.",
    "P14": "Floating-point projection is assumed exact (np.clip, min/max), other arithmetic inexact: hence the rule 'nothing inexact above a bounded value' and its two known findings.",
    "P15": "The constraint solver's search is opaque (it may fail); what is decided is that it is tried, and that a failure is announced.",
    "P16": "The links themselves are runtime objects: the rule decides that no path opens a file for writing without having removed it first.",
    "P17": "A context manager's own restoring code is assumed not to raise.",
    "P18": "Closures of nested functions are not tracked; explicit user actions on shared objects (set_name(register=True), modifying a factory) are out of scope. Lists whose length was asserted and which are completed once are accepted.",
    "P19": "Each optional feature (package, module or class) has its optional dependencies in a table of the rule file; benchmark extras and the transitive dependencies of the mandatory requirements are out of scope.",
    "P20": "The algebra is symbolic over the terms of the source (inverse of scaling and translation); floating-point rounding is N02.",
    "P21": "Nested helper tables (recommend_method) are not followed for definedness. A portfolio of sequential optimizers is accepted where a branch bounds the number of workers. Selectors assume a budget is given, as their documentation says.",
    "P22": "The dedicated-error part accepts refusals announced by errors.TellNotAskedNotSupportedError only.",
    "P23": "Resolution of foreign code is transitive over calls which can be resolved; unresolved calls count as foreign.",
    "P24": "Overrides of callbacks by users are out of scope. Loggers may write files.",
    "P25": "Pyomo functions excluded as in P03.",
    "P26": "The sizes of populations are not bounded (PSO may hold more particles than llambda). The invariant is assumed at the start of each hook and shown at its end.",
}

NA = {
    "N01": "Convergence: numerical and stochastic; no static argument in reach bounds it.",
    "N02": "Exact round trip of floating-point transforms: needs execution or a solver (P20 decides the part which is about references and symbolic inverses).",
    "N03": "Value of a recursive geometric algorithm in any dimension (P10 decides how it is used).",
    "N04": "Distribution and discrepancy of runtime sequences.",
    "N05": "Arithmetic over itertools of generator indices.",
    "N06": "A heap invariant over simulated durations.",
}


def first(p, name):
    for n in ast.parse(p.read_text()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
            return ast.literal_eval(n.value)
    return ""


def rules(path):
    out = []
    for n in ast.walk(ast.parse(path.read_text())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and len(n.args) >= 2 and all(isinstance(a, ast.Constant) for a in n.args[:2]):
            out.append((n.args[0].value, n.args[1].value))
        elif isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and isinstance(v, ast.Tuple) and len(v.elts) == 2 and all(isinstance(e, ast.Constant) for e in v.elts) and isinstance(v.elts[0].value, str) and isinstance(v.elts[1].value, int) and " " in v.elts[0].value:
                    out.append((k.value, v.elts[0].value))
    return list(dict.fromkeys(out))


def main():
    props = [json.loads(line) for line in (V / "properties.jsonl").read_text().splitlines() if line.strip()]
    known, fixed = {}, {}
    for line in (V / "known_findings.jsonl").read_text().splitlines():
        if not line.strip().startswith("{"):
            continue
        d = json.loads(line)
        if d.get("status") == "known":
            known.setdefault(d["property"], []).append(d)
        else:
            fixed.setdefault(d["property"], []).append(re.sub(r"^fixed: property=\S+ ", "", d["what"]))
    status = json.loads((V / "tools" / "seeds" / "status.json").read_text())
    out = [HEAD]
    out.append("\n## Properties and how each is decided\n")
    for d in props:
        i = d["id"]
        if i in NA:
            continue
        path = V / "nvsa" / "rules" / f"{i.lower()}.py"
        out.append(f"\n### {i}. {d['title']}\n\n{d['statement']}\n")
        tech = first(path, "TECHNIQUE")
        if tech:
            out.append(f"*Method.* {tech[0].upper() + tech[1:]}.\n")
        out.append(f"*What is decided.* {first(path, 'EXPLANATION')}\n")
        out.append("*Rules.*\n" + "\n".join(f"- `{a}`: {b}" for a, b in rules(path)) + "\n")
        out.append(f"*Bounds, assumptions, exceptions.* {NOTES.get(i, 'the general ones.')}\n")
        if fixed.get(i):
            out.append("*Defects found and repaired.*\n" + "\n".join(f"- {x}" for x in fixed[i]) + "\n")
        if known.get(i):
            byw = {}
            for k in known[i]:
                byw.setdefault(k["what"], []).append(k["construct"])
            out.append("*Known findings (not repaired).*\n" + "\n".join(f"- {', '.join(f'`{c}`' for c in cs)}: {w}" for w, cs in byw.items()) + "\n")
        seeds = [(k, s) for k, s in sorted(status.items()) if s["property"] == i and (V / "seeded" / k).is_dir()]
        if seeds:
            out.append("*Planted changes.* " + "; ".join(f"`{k}` {'caught' if s['caught'] else 'MISSED'} ({s['by'][:160]})" for k, s in seeds) + "\n")
    out.append("\n## Not applicable\n")
    out.append("\n".join(f"- {d['id']} ({d['title']}): {NA[d['id']]}" for d in props if d["id"] in NA) + "\n")
    out.append(TAIL)
    (V / "DESIGN.md").write_text("\n".join(out))


TAIL = """
## How the checks were tested

* `tools/mutants.py`: about 800 edits of the sources (`tools/mutants/Pxx.py`), each marked `bad` (breaks the property) or `ok` (a refactoring which keeps
  the behaviour: helpers extracted, tests inverted, loops rewritten, early returns, renamed locals, other containers...). Every check has both kinds, and must report the first and stay quiet on the second.
* `tools/plant.py`: realistic bugs written from the statements, confirmed in a scratch copy (demo passes before and fails after, the 1711 stable tests still pass), kept in `seeded/`
  with the check's verdict. A miss is followed by a new rule or a stronger one (last ones: the container of copied containers in P03, options replaced without a reason in P12, the slices of split
  optimizers in P13, errors of wrapped algorithms in P23).
* False alarms met on the unchanged tree were treated as errors of the checks: the property was restated or the rule corrected (e.g. P04's 'made through that parameter', P15's equivalent sums of penalties,
  P18's asserted lists). None of them is listed as a known finding.

No check reads `seeded/`, `tools/` or the evidence of another run.

## Defects outside the claims, seen and left

`minimize` with `num_ask` already above the budget; `RecastOptimizer.__del__` after a constructor which raised; experiments seeded without torch; `OrderedSet.discard` of a missing element; `Registry.unregister` leaving its information behind.
None breaks a statement above, and repairing them is not needed by any check.
"""

if __name__ == "__main__":
    main()
