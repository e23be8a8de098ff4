"""Cheap constraints: retried, solved, announced."""
from __future__ import annotations

from .common import *
from ..interp import State

EXPLANATION = (
    "Paths of ask: a returned candidate is either the very object last found to satisfy the constraints of the parametrization, or the "
    "dedicated warning was emitted after all trials and the solver (unless a tabu list is in use). Paths of the constraint check, of the "
    "skip test, of the penalty and of the solver are enumerated: own checkers and sub-parameters are all consulted, a penalty is positive "
    "exactly when the check fails. Copies keep the checkers; writers of the checkers are enumerated package-wide."
)
CHECKERS = "_constraint_checkers"


def sat_fact(p: Path, x: Term, value: bool) -> bool:
    return any(t[0] == "truth" and t[1][0] == "call" and t[1][1].rsplit(".", 1)[-1] == "satisfies_constraints" and t[1][2] == x and b is value for t, b in p.conds)


def check_ask(ctx: Ctx) -> None:
    cls = optimizer(ctx)
    f = cls.find_method("ask")
    if f is None:
        raise AnalysisBroken("Optimizer.ask vanished")
    ctx.rule("satisfied-or-announced", "the returned candidate satisfied the constraints when last checked, or the dedicated warning was emitted", 10)
    ctx.rule("retried", "a violating candidate is returned only after all the allowed trials", 2)
    ctx.rule("solved", "a violating candidate is returned only after running the constraint solver on it, unless a tabu list is in use", 2)
    ctx.rule("skip", "constraints are skipped from now on only after a candidate declared that they can be", 2)

    class Pol(P):
        def keep(self, cond: Term) -> bool:
            return any(s[0] == "call" and s[1].rsplit(".", 1)[-1] in ("satisfies_constraints", "can_skip_constraints") or s[0] == "attr" and s[2] in ("skip_constraints", "tabu_length", "_suggestions") for s in subterms(cond))

    pol = Pol(bool_calls=frozenset(["satisfies_constraints", "can_skip_constraints"]), opaque=CONTRACT | {"_warn", "warn", "_constraint_solver"}, unroll=(0, 1, 2), stable_attrs=frozenset(["_constraints_manager", "parametrization", "max_trials"]))
    C = "Optimizer.ask"
    REF = attr("parametrization")
    for p in ctx.paths(f, pol):
        for e in p.events:
            if e.kind == "setattr" and e.data["name"] == "skip_constraints" and e.data["value"] != FALSE:
                ok = any(t[0] == "truth" and t[1][0] == "call" and t[1][1].rsplit(".", 1)[-1] == "can_skip_constraints" and REF in (*t[1][3], *[v for _, v in t[1][4]]) and b for t, b in e.cond_list()) or (e.data["value"][0] == "call" and e.data["value"][1].rsplit(".", 1)[-1] == "can_skip_constraints")
                ctx.check("skip", ok, C + ":skip", e.loc, "constraints are skipped from now on although no candidate allowed it", path_note(p))
        if p.kind != "return":
            continue
        note = path_note(p)
        x = p.value
        warned = [e for e in p.events if is_call(e, "_warn", "warn") and any(s[0] in ("class", "ext", "global") or True for s in subterms(e.data["args"])) and "FailedConstraintWarning" in repr(e.data["args"]) + repr(e.data["kwargs"])]
        checks = [e for e in p.events if is_call(e, "satisfies_constraints") and e.data["recv"] == x and REF in (*e.data["args"], *[v for _, v in e.data["kwargs"]])]
        good = any(("truth", e.data["result"]) == t and b for e in checks for t, b in p.conds)
        ctx.check("satisfied-or-announced", good or bool(warned), C, f.loc(), f"{show(x)} is returned without being known to satisfy the constraints and without warning", note)
        if good:
            continue
        # which candidates were tried
        solver = [e for e in p.events if is_call(e, "_constraint_solver")]
        skipping = any(t == ("truth", attr("skip_constraints")) and b for t, b in p.conds)
        loops = [e for e in p.events if e.kind == "loopend" and contains(e.data["it"], attr("max_trials", attr("_constraints_manager")))]
        accepted = any(is_call(e, "satisfies_constraints") and ("truth", e.data["result"]) == t and b for e in p.events for t, b in p.conds)
        # (a candidate accepted during the trials may be refused later by the tabu list)
        ctx.check("retried", skipping or bool(loops) or accepted, C + ":trials", f.loc(), "a violating candidate is returned although trials are left", note)
        tabu = any(contains(t, ("attr", REF, "tabu_length")) and (t[0] == "cmp" and t[1] in ("==", "<=") and not b or t[0] == "cmp" and t[1] == "<" and b or t[0] == "truth" and b) for t, b in p.conds)
        ok = tabu or (bool(solver) and (x == solver[-1].data["result"]))
        ctx.check("solved", ok, C + ":solver", f.loc(), "a violating candidate is returned without running the constraint solver", note)
        for e in solver:
            b = arg(e, 1, "budget")
            ctx.check("solved", b is not None and contains(b, attr("max_trials", attr("_constraints_manager"))), C + ":solver-budget", e.loc, "the solver does not get the number of trials", note)


def inner_true(p: Path, method: str) -> bool:
    """The path knows that the method answered True for every sub-parameter (or that there is none)."""
    ap = [e for e in p.events if is_call(e, "apply") and e.data["recv"] == attr("_subobjects") and e.data["args"][:1] == (const(method),)]
    if not ap:
        return False
    for e in ap:
        vals = ("val", e.data["result"], 0)
        for t, b in p.conds:
            if t[0] == "truth" and b and (t[1] == vals or t[1][0] == "call" and t[1][1] == "builtins.all" and contains(t[1][3], e.data["result"])):
                return True
            if not b and t == ("truth", e.data["result"]):
                return True
            if t[0] == "cmp" and t[1] == "==" and b and contains(t, e.data["result"]) and const(0) in t[2:]:
                return True
        # the quantifier went through without finding any item
        if any(x.kind == "loopend" and contains(x.data["it"], e.data["result"]) and not any(y.kind == "iter" and y.data["lid"] == x.data["lid"] for y in p.events) for x in p.events):
            return True
    return False


def summed(v: Term, p: Path) -> tp.Optional[tp.List[Term]]:
    """The penalties added up, when the answer is that their sum is not positive."""
    if v[0] == "not" and v[-1][0] == "cmp" and v[-1][1] == "<" and is_const(v[-1][2]) and v[-1][2][2] == 0:
        total = v[-1][3]
    elif v[0] == "cmp" and v[1] in ("<=", "==") and is_const(v[3]) and v[3][2] == 0:
        total = v[2]
    else:
        return None
    todo, out = [total], []
    while todo:
        t = todo.pop()
        if t[0] == "bin" and t[1] == "+":
            todo += [t[2], t[3]]
        elif t[0] == "call" and t[1] in ("builtins.sum", "numpy.sum", "math.fsum") and t[3]:
            items = p.heap.get((t[3][0], "#items"))
            if items is None:
                return None
            todo += [*items, *t[3][1:]]
        elif t[0] == "call" and t[1].endswith("float_penalty"):
            out.append(t)
        elif not (is_const(t) and t[2] == 0):
            return None
    return out


def check_satisfies(ctx: Ctx) -> None:
    par = parameter(ctx)
    f, g = par.find_method("satisfies_constraints"), par.find_method("can_skip_constraints")
    if f is None or g is None:
        raise AnalysisBroken("Parameter lost its constraint checks")
    ctx.rule("all-consulted", "the check answers True only after every sub-parameter and every own checker accepted the current value", 4)
    ctx.rule("skip-only-unconstrained", "constraints can be skipped only without own checkers, tabu list or constrained sub-parameter", 1)

    class Pol(P):
        opaque = CONTRACT | {"apply", "float_penalty", "tabu_congruence"}
        unroll = (0, 1)
        comp_exact = True
        stable_attrs = frozenset([CHECKERS])

        def keep(self, cond: Term) -> bool:
            return True

    class Pol2(Pol):
        unroll = (2,)

    CH = attr(CHECKERS)
    for pol, n in ((Pol(), 1), (Pol2(), 2)):
        for p in ctx.paths(f, pol):
            if p.kind != "return":
                continue
            note = path_note(p)
            v = p.value
            if v == FALSE:
                continue
            facts = list(p.conds)
            added = summed(v, p) if v is not None else None  # penalties are never negative: a null sum means that all are null
            if added is not None:
                facts += [(("cmp", "<=", t, const(0)), True) for t in added]
                v = TRUE
            if v != TRUE:
                ctx.bad("all-consulted", "Parameter.satisfies_constraints:value", f.loc(), f"answers {show(v)}", note)
                continue
            ap = [e for e in p.events if is_call(e, "apply") and e.data["recv"] == attr("_subobjects")]
            subs = [e for e in ap if e.data["args"][:1] == (const("satisfies_constraints"),)]
            allsub = bool(subs)
            for e in subs:
                r = e.data["result"]
                done = [x for x in p.events if x.kind == "iter" and contains(x.data["it"], r)]
                allsub = allsub and all(("truth", x.data["elem"]) in [t for t, b in p.conds if b] for x in done)
                ended = [x for x in p.events if x.kind == "loopend" and contains(x.data["it"], r)]
                whole = any(t[0] == "truth" and b and t[1][0] == "call" and t[1][1] == "builtins.all" and contains(t[1][3], r) for t, b in p.conds)
                empty = any(t == ("truth", r) and not b for t, b in p.conds)
                allsub = allsub and (bool(ended) or whole or empty)
            ctx.check("all-consulted", allsub, "Parameter.satisfies_constraints:sub-parameters", f.loc(), "True although a sub-parameter was not consulted or refused", note)
            none = any(t == ("truth", CH) and not b for t, b in p.conds)
            its = [x for x in p.events if x.kind == "iter" and x.data["it"] == CH]
            ended = [x for x in p.events if x.kind == "loopend" and x.data["it"] == CH]
            acc = True
            for it in its:
                vals = [e for e in p.events if e.kind == "call" and e.data["recv"] is not None and (e.data["recv"] == it.data["elem"]) or (e.kind == "call" and e.data["name"] == "<value>" and e.data["recv"] == it.data["elem"])]
                okv = bool(vals) and all(e.data["args"] == (attr("value"),) for e in vals)
                fine = False
                for e in vals:
                    for t, b in facts:
                        if t[0] == "cmp" and contains(t, e.data["result"]) and any(s[0] == "call" and s[1].endswith("float_penalty") and s[3] == (e.data["result"],) for s in (t[2], t[3])):
                            left = t[2][0] == "call"
                            zero = (t[3] if left else t[2])
                            if not is_const(zero) or zero[2] != 0:
                                continue
                            # left: pen <= 0 (true) ; right: 0 < pen (false)
                            if left and t[1] == "<=" and b or (not left) and t[1] == "<" and not b or t[1] == "==" and b:
                                fine = True
                acc = acc and okv and fine
            ctx.check("all-consulted", none or (bool(ended) and acc), "Parameter.satisfies_constraints:checkers", f.loc(), "True although an own checker was not consulted with the current value, or its penalty is positive", note)
    ref = ("param", "ref")
    for p in ctx.paths(g, Pol()):
        if p.kind != "return" or p.value == FALSE:
            continue
        note = path_note(p)
        facts = list(p.conds)
        if p.value != TRUE:
            # the last condition is returned as it is
            facts.append((("truth", p.value) if p.value[0] != "not" else ("truth", p.value[-1]), p.value[0] != "not"))
            if p.value[0] == "call" and p.value[1] == "builtins.bool":
                facts.append((("truth", p.value[3][0]), True))
        own = (("truth", CH), False) in facts
        tab = any(t == ("cmp", "is", ref, NONE) and b for t, b in facts) or any(contains(t, ("attr", ref, "tabu_length")) and (t[0] == "cmp" and t[1] == "==" and b or t[0] == "truth" and not b or t[0] == "cmp" and t[1] == "<" and not b) for t, b in facts)
        subs = [e for e in p.events if is_call(e, "apply") and e.data["args"][:1] == (const("can_skip_constraints"),)]
        allsub = bool(subs)
        for e in subs:
            r = e.data["result"]
            its = [x for x in p.events if x.kind == "iter" and contains(x.data["it"], r)]
            allsub = allsub and all((("truth", x.data["elem"]), True) in facts for x in its)
            ended = any(x.kind == "loopend" and contains(x.data["it"], r) for x in p.events)
            empty = any(t[0] == "cmp" and t[1] == "==" and b and contains(t, r) and const(0) in t[2:] or t[0] == "truth" and contains(t, r) and t[1][0] in ("call", "attr") and t[1] != ("val", r, 0) and not b for t, b in facts)
            whole = any(t[0] == "truth" and b and t[1][0] == "call" and t[1][1] == "builtins.all" and contains(t[1][3], r) for t, b in facts)
            allsub = allsub and (ended or empty or whole)
        ctx.check("skip-only-unconstrained", own and tab and allsub, "Parameter.can_skip_constraints", g.loc(), f"answers {show(p.value)} although constraints may be left (own {own}, tabu {tab}, sub-parameters {allsub})", note)
    for c in par.all_subclasses():
        for nm in ("satisfies_constraints", "can_skip_constraints"):
            if nm in c.methods:
                m = c.methods[nm]
                sup = all(any(is_call(e, nm) for e in p.events) or p.value == FALSE for p in ctx.paths(m, P(), c) if p.kind == "return")
                ctx.check("all-consulted", sup, f"{c.fullname}.{nm}", m.loc(), "overrides the check without calling the inherited one")


def check_penalty(ctx: Ctx) -> None:
    f = next((x for x in ctx.project.functions(PARAM + ".utils") if x.name == "float_penalty" and x.cls is None), None)
    if f is None:
        raise AnalysisBroken("float_penalty vanished")
    ctx.rule("penalty-sign", "a penalty is positive exactly for False and for negative floats, and other types are refused", 3)
    x = ("param", f.params[0].arg)

    class Pol(P):
        def keep(self, cond: Term) -> bool:
            return True

    def sample(t: Term, env: tp.Any) -> tp.Any:
        """value of a term for a sampled sign of the argument: interval reasoning over the three signs and two booleans"""
        if t == x:
            return env
        if is_const(t):
            return t[2]
        if t[0] == "call" and t[1] in ("builtins.float", "builtins.abs", "builtins.min", "builtins.max", "builtins.bool", "builtins.int"):
            a = [sample(y, env) for y in t[3]]
            return None if any(y is None for y in a) else {"float": float, "abs": abs, "min": min, "max": max, "bool": bool, "int": int}[t[1].split(".")[1]](*a)
        if t[0] == "not" or (t[0] == "un" and t[1] == "not"):
            v = sample(t[-1], env)
            return None if v is None else not v
        if t[0] == "neg" or (t[0] == "un" and t[1] == "-"):
            v = sample(t[-1], env)
            return None if v is None else -v
        if t[0] == "bin":
            l, r = sample(t[2], env), sample(t[3], env)
            if l is None or r is None:
                return None
            return {"+": lambda: l + r, "-": lambda: l - r, "*": lambda: l * r}.get(t[1], lambda: None)()
        if t[0] == "cmp":
            l, r = sample(t[2], env), sample(t[3], env)
            if l is None or r is None:
                return None
            return {"<": l < r, "<=": l <= r, "==": l == r, "is": l is r}.get(t[1])
        if t[0] == "truth":
            v = sample(t[1], env)
            return None if v is None else bool(v)
        return None

    def mentions(names: tp.Iterable[str], p: Path) -> bool:
        return any(t[0] == "inst" and t[1] == x and b and any(n in repr(t[2]) for n in names) for t, b in p.conds)

    kinds: tp.List[tp.Any] = [("bool", True, False), ("bool", False, True), ("float", -1.5, True), ("float", -1e-200, True), ("float", 0.0, False), ("float", 1e-200, False), ("float", 2.5, False)]
    covered = set()
    for p in ctx.paths(f, Pol(opaque=frozenset(), unroll=(0, 1))):
        if p.kind == "raise":
            continue
        for kind, val, pos in kinds:
            if not mentions(["bool"] if kind == "bool" else ["float"], p):
                continue
            if any(sample(t, val) is (not b) for t, b in p.conds if t[0] in ("cmp", "truth")):
                continue
            got = sample(p.value, val)
            covered.add((kind, val))
            ctx.check("penalty-sign", got is not None and (got > 0) == pos, f"float_penalty:{kind}:{val}", f.loc(), f"the penalty of {val} is {show(p.value)}", path_note(p))
        if not mentions(["bool", "float"], p):
            ctx.bad("penalty-sign", "float_penalty:other", f.loc(), "a value which is neither a bool nor a float gets a penalty", path_note(p))
    ctx.check("penalty-sign", len(covered) == len(kinds), "float_penalty:cases", f.loc(), f"only {sorted(map(str, covered))} get a penalty")

    # penalty of a candidate and of the solver: every checker, sub-parameters included
    ctx.rule("penalty-all", "the penalty adds up the penalties of all own checkers and of the sub-parameters", 3)
    par = parameter(ctx)
    man = ctx.project.cls(OPT + ".utils", "ConstraintManager").find_method("penalty")
    solver = next((x for x in ctx.project.functions(BASE) if x.name == "_constraint_solver"), None)
    if man is None or solver is None:
        raise AnalysisBroken("the constraint manager or the constraint solver vanished")
    aggregators = set()
    for m in list(par.methods.values()) + [x for x in ctx.project.functions(OPT + ".utils") if x.cls is None] + [x for x in ctx.project.functions(PARAM + ".utils") if x.cls is None]:
        if m is not f and any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id.endswith("float_penalty") or isinstance(n.func, ast.Attribute) and n.func.attr.endswith("float_penalty")) for n in walk_local(m.node)) and m.name != "satisfies_constraints":
            own = any(isinstance(n, ast.Attribute) and n.attr == CHECKERS for n in walk_local(m.node))
            rec = any(isinstance(n, ast.Constant) and n.value == m.name for n in walk_local(m.node)) or any(isinstance(n, ast.Call) and (getattr(n.func, "attr", None) == m.name or getattr(n.func, "id", None) == m.name) for n in walk_local(m.node))
            filt = any(isinstance(n, ast.comprehension) and n.ifs for n in walk_local(m.node))
            for p in ctx.paths(m, P(opaque=CONTRACT | {"apply", "float_penalty", m.name}, unroll=(1,)), cls=m.cls):
                if p.kind == "return" and p.value is not None:
                    odd = not_added(p.value, p, {"apply", "float_penalty", m.name})
                    ctx.check("penalty-all", odd is None, m.fullname + ":sum", m.loc(), f"{show(odd)[:100] if odd else ''} does not add up the penalties", path_note(p))
            if ctx.check("penalty-all", own and rec and not filt, m.fullname, m.loc(), "the penalty leaves out own checkers or sub-parameters"):
                aggregators.add(m.name)
    sumcalls = lambda ps: [e for p in ps for e in p.events if is_call(e, *aggregators)]  # noqa: E731
    pol = P(opaque=CONTRACT | aggregators | {"float_penalty"}, unroll=(1,))
    for p in ctx.paths(man, pol):
        if p.kind == "return":
            es = [e for e in p.events if is_call(e, *aggregators)] if aggregators else []
            cand = ("param", man.params[1].arg)
            ok = len(es) >= 1 and all(cand == e.data["recv"] or cand in e.data["args"] for e in es) and all(contains(p.value, e.data["result"]) for e in es)
            ctx.check("penalty-all", ok, "ConstraintManager.penalty", man.loc(), "the penalty does not add up the violations of the candidate and its sub-parameters", path_note(p))
    # solver
    ctx.rule("solver", "the solver optimises a constraint-free copy against the constraints of the original and returns a child of the original", 4)
    prm, bud = ("param", solver.params[0].arg), ("param", solver.params[1].arg)
    C = "_constraint_solver"
    for p in ctx.paths(solver, P(opaque=CONTRACT | aggregators | {"float_penalty", "_clear_constraints", "clear"}, unroll=(1,))):
        if p.kind != "return":
            continue
        note = path_note(p)
        v = p.value
        sets = [e for e in p.events if is_call(e, "set_standardized_data")]
        child = sets[-1].data["recv"] if sets else None
        ok = bool(sets) and (v == child or v == sets[-1].data["result"]) and child[0] == "call" and child[1].endswith("spawn_child") and child[2] == prm
        ctx.check("solver", ok, C + ":result", solver.loc(), f"returns {show(v)}", note)
        copies = [e for e in p.events if is_call(e, "copy", "spawn_child") and e.data["recv"] == prm]
        clears = [e for e in p.events if is_call(e, "_clear_constraints", "clear") or (e.kind == "setattr" and e.data["name"] == CHECKERS)]
        okc = bool(clears) and all(any(contains((e.data.get("recv"), e.data.get("base")), c.data["result"]) for c in copies) for e in clears)
        ctx.check("solver", okc, C + ":clear", solver.loc(), "constraints are not removed from a copy of the parameter (or from the parameter itself)", note)
        asks = [e for e in p.events if is_call(e, "ask")]
        tells = [e for e in p.events if is_call(e, "tell")]
        pens = [e for e in p.events if is_call(e, *aggregators)]
        okp = bool(asks) and bool(pens)
        for e in pens:
            given = [e.data["recv"], *e.data["args"], *[v for _, v in e.data["kwargs"]]]
            okp = okp and any(a.data["result"] in given for a in asks) and prm in given
        ctx.check("solver", okp, C + ":penalty", solver.loc(), "the solver does not evaluate its candidates against all the constraints of the original", note)
        ctx.check("solver", len(tells) == len(asks) and all(t.data["args"][0] == a.data["result"] for a, t in zip(asks, tells)), C + ":tell", solver.loc(), "the solver does not tell each of its candidates", note)
    clr = par.find_method("_clear_constraints")
    if clr is not None:
        for p in ctx.paths(clr, P(opaque=frozenset(["apply"]))):
            ok = any(is_call(e, "apply") and const("_clear_constraints") in e.data["args"] for e in p.events) and any((is_call(e, "clear") and e.data["recv"] == attr(CHECKERS)) or (e.kind == "setattr" and e.data["name"] == CHECKERS) for e in p.events)
            ctx.check("solver", ok, "Parameter._clear_constraints", clr.loc(), "does not clear own checkers and sub-parameters", path_note(p))


NOT_SUMS = {"max", "min", "amax", "amin", "maximum", "minimum", "any", "all", "mean", "average", "median", "prod", "len", "count_nonzero", "bool"}


def not_added(v: Term, p: Path, sources: tp.Set[str]) -> tp.Optional[Term]:
    """a term which reduces several penalties in another way than by adding them up"""
    for s in subterms(v):
        if isinstance(s, tuple) and s and s[0] == "call" and s[1].rsplit(".", 1)[-1] in NOT_SUMS:
            inside = [s[3]] + [p.heap.get((a, "#items"), ()) for a in s[3]]
            if any(isinstance(x, tuple) and x and x[0] == "call" and x[1].rsplit(".", 1)[-1] in sources for i in inside for x in subterms(i)):
                return s
        items = p.heap.get((s, "#items")) if isinstance(s, tuple) and s and s[0] in ("list", "tuple", "gen", "set", "dict") else None
        for x in items or ():
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                odd = not_added(x, p, sources)
                if odd is not None:
                    return odd
    return None


def check_kept(ctx: Ctx) -> None:
    par = parameter(ctx)
    reg, cp = par.find_method("register_cheap_constraint"), par.find_method("copy")
    if reg is None or cp is None:
        raise AnalysisBroken("Parameter lost register_cheap_constraint or copy")
    ctx.rule("registered", "a registered constraint is appended to the checkers, or added as a layer", 2)
    fn = ("param", reg.params[1].arg)
    for p in ctx.paths(reg, P(opaque=CONTRACT | {"Constraint", "add_layer", "_ConstraintCompatibilityFunction"}, unroll=(0, 1))):
        if p.kind != "return":
            continue
        app = [e for e in p.events if e.kind == "call" and e.data["recv"] == attr(CHECKERS) and short(e) == "append" and e.data["args"] == (fn,)]
        stored = p.heap.get((SELF, CHECKERS))
        lay = [e for e in p.events if is_call(e, "add_layer") and e.data["recv"] == SELF]
        aslayer = any(t == ("truth", ("param", "as_layer")) and b for t, b in p.conds)
        ok = (len(app) == 1 or stored is not None and contains(stored, attr(CHECKERS)) and (contains(stored, fn) or any(contains(y, fn) for y in p.heap.get((stored[-1], "#items"), ())))) and not aslayer or (len(lay) == 1 and aslayer)
        ctx.check("registered", ok, "Parameter.register_cheap_constraint", reg.loc(), "the constraint is not recorded", path_note(p))
    ctx.rule("survives-copy", "copies and children get all the constraints", 1)
    for p in ctx.paths(cp, P(opaque=frozenset(["freeze", "new", "items", "_set_random_state"]), unroll=(0, 1))):
        if p.kind != "return":
            continue
        v = p.heap.get((p.value, CHECKERS))
        whole = v is not None and (v[0] == "call" and v[1] in ("builtins.list", "copy.copy") and v[3] and v[3][0][0] == "attr" and v[3][0][2] == CHECKERS or v[0] == "sub" and v[1][0] == "attr" and v[1][2] == CHECKERS or v[0] == "call" and v[1].rsplit(".", 1)[-1] == "copy" and v[2] is not None and v[2][0] == "attr" and v[2][2] == CHECKERS)
        if v is not None and not whole:
            its = p.heap.get((v, "#items"))
            whole = its is not None and len(its) == 1 and its[0][0] in ("rep", "star") and its[0][1][-1 if its[0][0] == "star" else 1] in (attr(CHECKERS), CHECKERS) or (its is not None and len(its) == 1 and contains(its, attr(CHECKERS)))
        ctx.check("survives-copy", whole, "Parameter.copy", cp.loc(), f"the checkers of the copy are {show(v) if v else 'not set'}", path_note(p))
    # writers
    ctx.rule("checkers-writers", "the constraint checkers are only written by registration, copies and the solver's own copy", 3)
    allowed = {reg.fullname, cp.fullname, par.methods["__init__"].fullname}
    clr = par.find_method("_clear_constraints")
    for f, n, name, base in attribute_writes(ctx.project, {CHECKERS}, "nevergrad"):
        own = f.fullname in allowed or (clr is not None and f.fullname == clr.fullname)
        if not own and f.name == "_constraint_solver":
            own = True  # decided by the solver rule
        if not own and f.cls is not None and f.name == "copy" and isinstance(base, ast.Attribute):
            src = getattr(n, "_nv_parent", None)
            own = isinstance(src, ast.Assign) and any(isinstance(s, ast.Attribute) and s.attr == CHECKERS and s is not n for s in ast.walk(src.value))
        ctx.check("checkers-writers", own, f"{f.fullname}", f.loc(n), "the constraint checkers are written elsewhere")
    for f in ctx.project.functions("nevergrad"):
        for n in walk_local(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "_clear_constraints" and not (f.name in ("_constraint_solver", "_clear_constraints")):
                ctx.bad("checkers-writers", f"{f.fullname}:clear", f.loc(n), "constraints are removed from a parameter")


def check_apply(ctx: Ctx) -> None:
    ctx.rule("apply-all", "recursive calls reach every sub-parameter and report each result under its own key", 2)
    c = ctx.project.cls(PARAM + ".utils", "Subobjects")
    f, g = c.find_method("apply"), c.find_method("items")
    if f is None or g is None:
        raise AnalysisBroken("Subobjects lost apply or items")

    for p in ctx.paths(f, P(opaque=frozenset(["items", "_get_subobject"]), unroll=(0, 1, 2))):
        if p.kind != "return":
            continue
        its = [e for e in p.events if e.kind == "iter" and e.data["it"][0] == "call" and e.data["it"][1].endswith("items") and e.data["it"][2] == SELF]
        ended = [e for e in p.events if e.kind == "loopend" and e.data["it"][0] == "call" and e.data["it"][1].endswith("items")]
        calls = [e for e in p.events if e.kind == "call" and e.data["name"] == "<value>" and any(contains(e.data["recv"], it.data["elem"][1][1]) for it in its if it.data["elem"][0] == "tuple")]
        res = p.heap.get((p.value, "#items"))
        ok = bool(ended) and not any(e.kind == "loopbreak" for e in p.events) and res is not None and len(res) >= len(its)
        if not its and res is not None:
            ok = bool(ended)
        ctx.check("apply-all", ok, "Subobjects.apply", f.loc(), "a sub-parameter is skipped", path_note(p))
    for p in ctx.paths(g, P(opaque=frozenset(), unroll=(2,))):
        if p.kind != "return":
            continue
        its = [e for e in p.events if e.kind == "iter"]
        ys = [e for e in p.events if e.kind == "yield"]
        want = 0
        for it in its:
            el = it.data["elem"]
            val = el[1][1] if el[0] == "tuple" and len(el[1]) == 2 else el
            want += any(t[0] == "inst" and t[1] == val and b for t, b in p.conds)
        ctx.check("apply-all", len(ys) == want and bool(its) and any(e.kind == "loopend" for e in p.events), "Subobjects.items", g.loc(), f"{len(ys)} of {want} sub-parameters are listed", path_note(p))


def check(ctx: Ctx) -> None:
    check_ask(ctx)
    check_satisfies(ctx)
    check_penalty(ctx)
    check_kept(ctx)
    check_apply(ctx)
