"""Pareto front maintenance."""
from __future__ import annotations

from .common import *

EXPLANATION = (
    "Paths of tell, of HypervolumePareto.add (volume computation inlined) and of the front filter are enumerated: each multi-objective "
    "evaluation is offered once; a path which does not keep it must have proved that it lies beyond the bounds while better points are "
    "known or that it does not increase the dominated volume of all kept points; filtering two arbitrary points keeps no dominated one "
    "and drops none without a dominator or equal kept point; what is returned is a fresh, filtered, repetition-free list. "
    "Writers of the front are enumerated package-wide."
)
MO = OPT + ".multiobjective.core"
Fact = tp.Tuple[Term, Term, bool]


def strip(t: Term) -> Term:
    """x of builtins.bool(x), numpy.asarray(x)"""
    while t[0] == "call" and t[1] in ("builtins.bool", "numpy.asarray", "numpy.array") and len(t[3]) == 1:
        t = t[3][0]
    return t


def wins(cond: Term, b: bool) -> tp.Optional[Fact]:
    """(x, y, v): the condition says that 'x is lower than y in some component' is v."""
    if cond[0] == "truth":
        cond = cond[1]
    cond = strip(cond)
    if cond[0] != "call":
        return None
    q = cond[1].rsplit(".", 1)[-1]
    if q not in ("any", "all"):
        return None
    inner = cond[2] if cond[2] is not None else (cond[3][0] if cond[3] else None)
    if inner is None:
        return None
    neg = False
    while inner[0] == "not" or inner[0] == "un" and inner[1] in ("~", "not"):
        inner = inner[-1]
        neg = not neg
    if inner[0] != "cmp" or inner[1] not in ("<", "<="):
        return None
    op, x, y = inner[1], inner[2], inner[3]
    if is_const(x) and x[2] == 0 and y[0] == "bin" and y[1] == "-":  # 0 < y1 - y2
        x, y = y[3], y[2]
    elif is_const(y) and y[2] == 0 and x[0] == "bin" and x[1] == "-":  # x1 - x2 < 0
        x, y = x[2], x[3]
    if neg:  # not (x < y) is y <= x
        op, x, y = ("<=" if op == "<" else "<"), y, x
    if q == "any" and op == "<":
        return (x, y, b)
    if q == "all" and op == "<=":
        return (y, x, not b)
    return None


def facts(p: Path) -> tp.Set[Fact]:
    return {w for w in (wins(t, b) for t, b in p.conds) if w is not None}


def same_numbers(t: Term, loss: Term) -> bool:
    """The given loss, one item of it, or the same numbers in another shape (no reduction)."""
    while t != loss:
        if t[0] == "sub" and is_const(t[2]):
            t = t[1]
        elif t[0] == "call" and t[1].rsplit(".", 1)[-1] in ("asarray", "array", "ravel", "flatten", "item", "reshape", "squeeze", "float"):
            nxt = t[2] if t[2] is not None else (t[3][0] if t[3] else None)
            if nxt is None:
                return False
            t = nxt
        else:
            return False
    return True


def check_offer(ctx: Ctx) -> None:
    ctx.rule("offered", "every told multi-objective evaluation is offered to the front exactly once, with its losses recorded before", 10)
    cls = optimizer(ctx)
    f = cls.find_method("tell")
    if f is None:
        raise AnalysisBroken("Optimizer.tell vanished")
    LOSS = ("param", "loss")

    class Pol(P):
        def keep(self, cond: Term) -> bool:
            return cond[0] == "inst" or any(s[0] == "attr" and s[2] in ("size",) for s in subterms(cond))

    pol = Pol(opaque=CONTRACT | {"_warn", "add", "_update_archive_and_bests", "penalty", "HypervolumePareto", "warn"}, unroll=(0, 1), stable_attrs=frozenset(["_num_objectives", "budget", "_no_hypervolume"]), ignore=frozenset(["builtins.print", "builtins.len"]))
    HP = attr("_hypervolume_pareto")
    for p in ctx.paths(f, pol):
        if p.kind != "return":
            continue
        deliv = [e for e in p.events if is_call(e, "_internal_tell_candidate", "_internal_tell_not_asked", "_internal_tell") and e.data["recv"] == SELF]
        offers = [e for e in p.events if is_call(e, "add") and e.data["name"].endswith("HypervolumePareto.add") or (is_call(e, "add") and e.data["recv"] is not None and (e.data["recv"] == HP or e.data["recv"] == p.heap.get((SELF, "_hypervolume_pareto"))))]
        rec = [e for e in p.events if e.kind == "setattr" and e.data["name"] == "_losses"]
        note = path_note(p)
        if not deliv:
            ctx.check("offered", not offers, "Optimizer.tell:reference", f.loc(), "an evaluation offered to the front is not delivered to the algorithm", note)
            continue
        x = arg(deliv[0], 0, "candidate")
        scalar = [e for e in p.events if e.kind == "setattr" and e.data["name"] == "loss"]
        # the recorded loss tells which kind of evaluation the path processes
        isfloat = bool(scalar) and (is_const(scalar[-1].data["value"]) or (scalar[-1].data["value"][0] == "call" and scalar[-1].data["value"][1] == "builtins.float" and same_numbers(scalar[-1].data["value"][3][0], LOSS)))
        if isfloat:
            ctx.check("offered", not offers, "Optimizer.tell:scalar", f.loc(), "a scalar evaluation is offered to the front", note)
            continue
        if not offers:
            ctx.bad("offered", "Optimizer.tell:multi", f.loc(), "a multi-objective evaluation is not offered to the front", note)
            continue
        ok = len(offers) == 1 and offers[0].data["args"] == (x,)
        ctx.check("offered", ok, "Optimizer.tell:multi", offers[0].loc, f"{len(offers)} offers of {[show(a) for a in offers[0].data['args']]}", note)
        idx = {id(e): i for i, e in enumerate(p.events)}
        okr = bool(rec) and all(e.data["base"] == x and contains(e.data["value"], ("param", "loss")) and idx[id(e)] < idx[id(offers[0])] for e in rec)
        ctx.check("offered", okr, "Optimizer.tell:losses", offers[0].loc, "the losses are not recorded on the candidate before it is offered", note)
        # the front offered to is the optimizer's, with reference bounds kept
        for e in p.events:
            if e.kind == "setattr" and e.data["name"] == "_hypervolume_pareto":
                fresh = any((t == ("cmp", "is", HP, NONE) or t == ("cmp", "==", HP, NONE)) and b for t, b in e.cond_list())
                ctx.check("offered", fresh, "Optimizer.tell:front", e.loc, "an existing front is replaced", note)


def check_add(ctx: Ctx) -> None:
    ctx.rule("kept-unless", "a point is left out only beyond the bounds while better points are known, or without increasing the dominated volume", 6)
    hp = ctx.project.cls(MO, "HypervolumePareto")
    f = hp.find_method("add")
    if f is None:
        raise AnalysisBroken("HypervolumePareto.add vanished")
    x = ("param", f.params[1].arg)
    L = ("attr", x, "losses")
    UB, BV, PF = attr("_upper_bounds"), attr("_best_volume"), attr("_pf")
    pol = P(opaque=frozenset(["add_to_pareto", "get_front", "get_raw", "compute", "losses", "HypervolumeIndicator"]), unroll=(1,), stable_attrs=frozenset(["_pf", "_no_hypervolume"]))
    for p in ctx.paths(f, pol):
        if p.kind != "return":
            continue
        note = path_note(p)
        adds = [e for e in p.events if is_call(e, "add_to_pareto") or (e.kind == "call" and short(e) in ("append", "add") and e.data["recv"] == ("attr", PF, "_pareto"))]
        if adds:
            ok = len(adds) == 1 and adds[0].data["args"] == (x,) and contains(adds[0].data["recv"], PF)
            ctx.check("kept-unless", ok, "HypervolumePareto.add:kept", adds[0].loc, f"{len(adds)} addition(s) to the front", note)
            continue
        fs = facts(p)
        strict_all = any(t[0] == "truth" and b and strip(t[1])[0] == "call" and strip(t[1])[1].rsplit(".", 1)[-1] == "all" and ("cmp", "<", UB, L) in (strip(t[1])[2], *strip(t[1])[3]) for t, b in p.conds)
        finite = any(t[0] == "truth" and b and strip(t[1])[0] == "call" and any(contains(s, ("const", "float", -float("inf"))) for s in [strip(t[1])]) and contains(t, UB) for t, b in p.conds) or any(t[0] == "truth" and b and contains(t, UB) and any(s[0] == "call" and s[1] in ("numpy.isfinite",) for s in subterms(t)) for t, b in p.conds)
        over = (UB, L, True) in fs
        bv = p.heap.get((SELF, "_best_volume"), BV)
        better_known = any((t == ("cmp", "<", bv, const(0)) and not b) or (t == ("cmp", "<=", const(0), bv) and b) or (t == ("cmp", "<", const(0), bv) and b) for t, b in p.conds)
        novol = False
        for t, b in p.conds:
            if t[0] != "cmp" or t[1] not in ("<", "<="):
                continue
            for old, new, holds in ((t[2], t[3], False), (t[3], t[2], True)):
                # old < new is false, or new <= old is true
                if old == BV and new[0] == "call" and new[1].rsplit(".", 1)[-1] == "compute" and b == holds and (t[1] == "<=" if holds else True):
                    vol = next((e for e in p.events if e.kind == "call" and e.data["result"] == new), None)
                    novol = vol is not None and complete(vol.data["args"][0], PF, L, p)
        ok = (strict_all and finite) or (over and better_known) or novol
        ctx.check("kept-unless", ok, "HypervolumePareto.add:dropped", f.loc(p_node(p)), "a point is left out of the front without being provably useless", note)
    # the kept point is stored and the front marked unfiltered
    pf = ctx.project.cls(MO, "ParetoFront")
    g = pf.find_method("add_to_pareto")
    if g is None:
        raise AnalysisBroken("ParetoFront.add_to_pareto vanished")
    ctx.rule("stored", "an added point is appended and the front is marked as needing filtering", 2)
    y = ("param", g.params[1].arg)
    for p in ctx.paths(g, P(opaque=frozenset(["losses"]), unroll=(0, 1), keep=lambda c: True)):
        if p.kind == "return" and any(worse(t, b, y) for t, b in p.conds) and not [e for e in p.events if e.kind in ("setattr", "setitem", "aug")]:
            ctx.ok("stored", "ParetoFront.add_to_pareto:dominated")
            continue
        app = [e for e in p.events if e.kind == "call" and e.data["recv"] == attr("_pareto") and short(e) in ("append", "insert", "extend") and contains(e.data["args"], y)]
        app += [e for e in p.events if e.kind in ("setattr", "aug") and e.kind == "setattr" and e.data["name"] == "_pareto"]
        ctx.check("stored", len(app) == 1, "ParetoFront.add_to_pareto", g.loc(), "the point is not stored exactly once", path_note(p))
        flag = p.heap.get((SELF, "_pareto_needs_filtering"))
        ctx.check("stored", flag == TRUE, "ParetoFront.add_to_pareto:flag", g.loc(), "the front is not marked as needing filtering", path_note(p))


def worse(t: Term, b: bool, y: Term) -> bool:
    """an already kept point is at least as good for all objectives"""
    t = t[1] if t[0] == "truth" else t
    if not (b and t[0] == "call" and t[1].rsplit(".", 1)[-1] == "all"):
        return False
    c = t[2] if t[2] is not None else (t[3][0] if t[3] else None)
    if not (isinstance(c, tuple) and c and c[0] == "cmp" and c[1] in ("<=", "<")):
        return False
    return c[3] == ("attr", y, "losses") and c[2][0] == "attr" and c[2][2] == "losses" and contains(c[2][1], attr("_pareto"))


def p_node(p: Path) -> tp.Any:
    return getattr(p.outcome, "node", None) if hasattr(p, "outcome") else None


def complete(volume_args: Term, pf: Term, losses: Term, p: Path) -> bool:
    """The volume is computed over the losses of all kept points and of the new one."""
    seen = list(subterms(volume_args))
    for s in list(seen):
        for y in p.heap.get((s, "#items"), ()) if s[0] in ("list", "set") else ():
            seen += list(subterms(y))
    raw = any(s[0] == "call" and s[1].rsplit(".", 1)[-1] in ("get_raw", "get_front") or s == ("attr", pf, "_pareto") for s in seen)
    return raw and losses in seen


def check_filter(ctx: Ctx) -> None:
    ctx.rule("filter", "filtering keeps no dominated point and drops none without a dominator (or an equal kept point), and clears the flag", 8)
    pf = ctx.project.cls(MO, "ParetoFront")
    f = pf.find_method("_filter_pareto_front") or pf.find_method("get_front")
    if f is None:
        raise AnalysisBroken("ParetoFront lost its filter")
    FRONT = attr("_pareto")
    # in-place filtering is a different list object: only the final content counts
    C = f"ParetoFront.{f.name}"
    pol = P(opaque=frozenset(["losses"]), unroll=(2,), comp_exact=True, stable_attrs=frozenset(["_pareto"]))
    n = 0
    for p in ctx.paths(f, pol):
        if p.kind != "return":
            continue
        items = [("item", FRONT, k) for k in range(2)]
        losses = [("attr", t, "losses") for t in items]
        fs = facts(p)
        w = {(i, j): True for i in range(2) for j in range(2) if (losses[i], losses[j], True) in fs}
        w.update({(i, j): False for i in range(2) for j in range(2) if (losses[i], losses[j], False) in fs})
        if any(b and t[0] == "cmp" and t[1] in ("is", "==") and {t[2], t[3]} == set(items) for t, b in p.conds):
            w.update({(0, 1): False, (1, 0): False})  # the very same point
        if any(w.get((i, i)) for i in range(2)) or any((x, y, not v) in fs for x, y, v in fs):
            continue  # a point is not lower than itself; contradicting comparisons
        if any(t[0] == "truth" and t[1][0] == "call" and t[1][1].rsplit(".", 1)[-1] in ("any", "all") and (FALSE in (t[1][2], *t[1][3]) and b or TRUE in (t[1][2], *t[1][3]) and not b) for t, b in p.conds):
            continue  # any() of false comparisons
        new = p.heap.get((SELF, "_pareto"))
        if new is None:
            ctx.bad("filter", C, f.loc(), "the filtered list does not replace the front", path_note(p))
            continue
        kept = p.heap.get((new, "#items"))
        if kept is None and new[0] == "call" and new[1] in ("builtins.list", "builtins.tuple") and new[3]:
            kept = p.heap.get((new[3][0], "#items"))
        if kept is None or any(k not in items for k in kept) or (new, "#open") in p.heap:
            ctx.bad("filter", C + ":content", f.loc(), f"the filtered content cannot be traced to the points of the front: {show(new)}", path_note(p))
            continue
        n += 1
        inc = [i for i in range(2) if items[i] in kept]
        same = len(kept) == len(set(kept))
        ctx.check("filter", same, C + ":once", f.loc(), "a point is kept twice", path_note(p))
        for i in range(2):
            j = 1 - i
            # dominates(j, i): W(j, i) and not W(i, j)
            if i in inc and j in inc:
                ctx.check("filter", w.get((j, i)) is False or w.get((i, j)) is True, C + ":dominated", f.loc(), "a point is kept together with a point which may dominate it", path_note(p))
            if i not in inc:
                dominated = w.get((j, i)) is True and w.get((i, j)) is False
                equal = j in inc and w.get((j, i)) is False and w.get((i, j)) is False
                covered = j in inc and w.get((i, j)) is False  # j <= i everywhere
                ctx.check("filter", dominated or equal or covered, C + ":dropped", f.loc(), "a point is dropped although no other is known to dominate or equal it", path_note(p))
        flag = p.heap.get((SELF, "_pareto_needs_filtering"))
        ctx.check("filter", flag == FALSE or f.name == "get_front", C + ":flag", f.loc(), f"the flag becomes {show(flag) if flag else 'unchanged'}", path_note(p))


def check_front(ctx: Ctx) -> None:
    pf = ctx.project.cls(MO, "ParetoFront")
    f = pf.find_method("get_front")
    if f is None:
        raise AnalysisBroken("ParetoFront.get_front vanished")
    ctx.rule("filtered-first", "the front is filtered, when needed, before anything is returned", 4)
    ctx.rule("fresh-list", "the returned list is never the internal one", 4)
    ctx.rule("no-repetition", "a subset is drawn from the front without replacement, at the requested size", 3)
    FRONT = attr("_pareto")
    pol = P(opaque=frozenset(["_filter_pareto_front", "compute", "losses", "norm"]), unroll=(1,), stable_attrs=frozenset())
    for p in ctx.paths(f, pol):
        if p.kind != "return":
            continue
        note = path_note(p)
        dirty = [b for t, b in p.conds if t == ("truth", attr("_pareto_needs_filtering"))]
        filt = [i for i, e in enumerate(p.events) if is_call(e, "_filter_pareto_front")]
        use = [i for i, e in enumerate(p.events) if e.kind in ("call", "iter") and not is_call(e, "_filter_pareto_front") and contains((e.data.get("recv"), e.data.get("args"), e.data.get("it")), FRONT)]
        ok = bool(filt) and (not use or filt[0] < use[0]) or (bool(dirty) and not dirty[0])
        ctx.check("filtered-first", ok, "ParetoFront.get_front", f.loc(), "points are returned without filtering", note)
        v = p.value
        fresh = v is not None and v != FRONT and not (v[0] == "call" and v[1].rsplit(".", 1)[-1] in ("get_raw",))
        ctx.check("fresh-list", fresh, "ParetoFront.get_front:result", f.loc(), f"returns {show(v)}", note)
        full = v[0] == "call" and v[1] in ("builtins.list", "builtins.sorted") and v[3][:1] == (FRONT,) or v[0] == "sub" and v[1] == FRONT or (v[0] == "call" and v[1].rsplit(".", 1)[-1] == "copy" and (v[2] == FRONT or FRONT in v[3]))
        its = p.heap.get((v, "#items"))
        full = full or (its is not None and its == (("rep", ("item", FRONT, 0)),))
        if full:
            size = ("param", f.params[1].arg)
            lim = any(t == ("cmp", "is", size, NONE) and b for t, b in p.conds) or any(t[0] == "cmp" and t[1] in ("<", "<=") and t[3] == size and contains(t[2], FRONT) and b for t, b in p.conds) or any(t[0] == "cmp" and t[1] in ("<", "<=") and t[2] == size and contains(t[3], FRONT) and not b for t, b in p.conds) or (v[0] == "sub")
            ctx.check("no-repetition", lim, "ParetoFront.get_front:full", f.loc(), "the whole front is returned although a subset was requested", note)
        else:
            draws = [e for e in p.events if e.kind == "call" and short(e) in ("choice", "permutation", "shuffle", "sample", "randint", "integers", "choices", "random_sample")]
            good = bool(draws)
            for e in draws:
                if short(e) == "choice":
                    rep = arg(e, 2, "replace")
                    good = good and rep == FALSE and contains(e.data["args"], FRONT)
                    good = good and arg(e, 1, "size") is not None and contains(arg(e, 1, "size"), ("param", f.params[1].arg))
                elif short(e) not in ("permutation", "sample"):
                    good = False
                good = good and e.data["recv"] is not None and contains(e.data["recv"], attr("_rng"))
            ctx.check("no-repetition", good, "ParetoFront.get_front:subset", draws[0].loc if draws else f.loc(), "a subset is not drawn without replacement from the front by the seeded generator", note)
    # pass-through
    ctx.rule("pass-through", "the optimizer returns the subset it was asked for from its own front", 2)
    names = ("size", "subset", "subset_tentatives")
    for c, m, target in ((ctx.project.cls(MO, "HypervolumePareto"), "pareto_front", ("get_front",)), (optimizer(ctx), "pareto_front", ("pareto_front",))):
        g = c.find_method(m)
        if g is None:
            raise AnalysisBroken(f"{c.name}.{m} vanished")
        tgt = {"get_front": pf.find_method("get_front"), "pareto_front": ctx.project.cls(MO, "HypervolumePareto").find_method("pareto_front")}[target[0]]
        formal = [a.arg for a in tgt.params[1:]] if tgt else []
        if m == "pareto_front" and c.name == "Optimizer":
            pol2: P = P(opaque=frozenset(["pareto_front"]))
        else:
            pol2 = P(opaque=frozenset(["get_front"]))
        for p in ctx.paths(g, pol2):
            if p.kind != "return":
                continue
            none = any(t == ("cmp", "is", attr("_hypervolume_pareto"), NONE) and b or t == ("truth", attr("_hypervolume_pareto")) and not b for t, b in p.conds)
            calls = [e for e in p.events if is_call(e, *target)]
            single = any(contains(t, attr("_num_objectives")) and (t[1] == "<" and t[2] == const(1) and not b or t[1] == "<=" and t[3] == const(1) and b or t[1] == "==" and b) for t, b in p.conds if t[0] == "cmp")
            empty = none or any(t[0] == "truth" and calls and t[1] == calls[0].data["result"] and not b for t, b in p.conds)
            its = p.heap.get((p.value, "#items"))
            if single and empty and its is not None and len(its) == 1:
                ctx.ok("pass-through", f"{c.name}.{m}:single")  # single objective: the recommendation
                continue
            if none:
                its = p.heap.get((p.value, "#items"))
                ctx.check("pass-through", its == () and not calls, f"{c.name}.{m}:empty", g.loc(), f"without any evaluation it returns {show(p.value)}", path_note(p))
                continue
            ok = len(calls) == 1 and p.value == calls[0].data["result"]
            for i, nm in enumerate(formal):
                ok = ok and arg(calls[0], i, nm) == ("param", nm)
            ctx.check("pass-through", ok, f"{c.name}.{m}", g.loc(), "the request is not passed to the front unchanged", path_note(p))


def check_rank(ctx: Ctx) -> None:
    ctx.rule("dominance", "the non-dominated ranking compares by Pareto dominance: lower in some objective and higher in none", 3)
    c = ctx.project.cls(OPT + ".multiobjective.nsga2", "FastNonDominatedRanking")
    f = c.find_method("compare")
    if f is None:
        raise AnalysisBroken("FastNonDominatedRanking.compare vanished")
    a, b = (("attr", ("param", q.arg), "losses") for q in f.params[-2:])

    class Pol(P):
        opaque = frozenset(["losses"])

        def keep(self, cond: Term) -> bool:
            return True

    for p in ctx.paths(f, Pol()):
        if p.kind != "return":
            continue
        for ab in (True, False):
            for ba in (True, False):
                if any(holds(t, a, b, ab, ba) is (not v) for t, v in p.conds):
                    continue  # the path is not taken for such losses
                want = -1 if ab and not ba else 1 if ba and not ab else 0
                got = p.value[2] if is_const(p.value) else None
                ctx.check("dominance", got == want, f"FastNonDominatedRanking.compare:{want}", f.loc(), f"returns {show(p.value)} when the first is lower in {'some' if ab else 'no'} and the second in {'some' if ba else 'no'} objective", path_note(p))


def holds(t: Term, a: Term, b: Term, ab: bool, ba: bool) -> tp.Optional[bool]:
    """Truth of a condition given whether a (b) is lower than b (a) in some component."""
    if t[0] == "truth":
        t = t[1]
    t = strip(t)
    if is_const(t):
        return bool(t[2])
    if t[0] == "not" or t[0] == "un" and t[1] == "not":
        v = holds(t[-1], a, b, ab, ba)
        return None if v is None else not v
    w = wins(t, True)
    if w is not None:
        v = {(a, b): ab, (b, a): ba}.get((w[0], w[1]))
        return None if v is None else v == w[2]
    if t[0] == "call" and t[1] in ("numpy.array_equal",) and {t[3][0], t[3][1]} == {a, b}:
        return not ab and not ba
    if t[0] in ("cmp",) and t[1] in ("==", "is", "<", "<="):
        l, r = holds(t[2], a, b, ab, ba), holds(t[3], a, b, ab, ba)
        if l is None or r is None:
            return None
        return {"==": l == r, "is": l == r, "<": l < r, "<=": l <= r}[t[1]]
    return None


def check_writers(ctx: Ctx) -> None:
    ctx.rule("front-writers", "the front, its flag and the optimizer's front object are only written by their owners", 6)
    pf, hp, opt = ctx.project.cls(MO, "ParetoFront"), ctx.project.cls(MO, "HypervolumePareto"), optimizer(ctx)
    for f, n, name, base in attribute_writes(ctx.project, {"_pareto", "_pareto_needs_filtering", "_hypervolume_pareto", "_pf"}, "nevergrad"):
        owner = {"_pareto": (pf,), "_pareto_needs_filtering": (pf, hp), "_hypervolume_pareto": (opt,), "_pf": (hp,)}[name]
        own = f.cls is not None and any(f.cls.is_subclass_of(o) for o in owner) and isinstance(base, ast.Name) and base.id == (f.params[0].arg if f.params else "")
        ctx.check("front-writers", own, f"{f.fullname}:{name}", f.loc(n), f"{name} is written from outside of its owner")
    # the raw list handed out for reading is never modified
    for f in ctx.project.functions("nevergrad"):
        for n in walk_local(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in Interp.MUTATORS:
                v = n.func.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "get_raw":
                    ctx.bad("front-writers", f"{f.fullname}:get_raw", f.loc(n), "the internal list is modified through get_raw")


def check(ctx: Ctx) -> None:
    check_offer(ctx)
    check_add(ctx)
    check_filter(ctx)
    check_front(ctx)
    check_rank(ctx)
    check_writers(ctx)
