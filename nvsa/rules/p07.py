"""Loss sanitising, archive and incumbents."""
from __future__ import annotations

from .common import *
from ..interp import State

EXPLANATION = (
    "Paths of Optimizer.tell: every use of a scalar loss (callbacks, candidate.loss, archive, algorithm) must be the clipped constant "
    "announced by a warning, or a float compared below the threshold on that very path (a negated comparison is not enough: NaN), or "
    "the hypervolume loss. Paths of the archive update: each evaluation enters the archive once, each current best is replaced only "
    "under the comparison of its own criterion and re-elected by a minimum over the archive when its entry changed. Pruning, "
    "recommendation and value bookkeeping are decided the same way; writers of these structures are enumerated package-wide."
)
CAND, LOSS = ("param", "candidate"), ("param", "loss")


def is_sanitised(t: Term, p: Path) -> tp.Optional[str]:
    """None if sanitised, else the reason."""
    if is_const(t) and isinstance(t[2], float):
        warned = [e for e in p.events if is_call(e, "_warn", "warn")]
        if not warned:
            return "clipped without a warning"
        return None if 0 < t[2] < 1e300 else f"clipped to {t[2]}"
    if t[0] == "call" and t[1].rsplit(".", 1)[-1] in ("_preprocess_multiobjective", "add"):
        return None
    if not (t[0] == "call" and t[1] in ("builtins.float", "numpy.float64")):
        return f"{show(t)} is not converted to a float"
    facts = p.conds
    below = any(b and c[0] == "cmp" and c[1] in ("<", "<=") and c[2] == t and is_const(c[3]) and c[3][2] <= 5.0e20 for c, b in facts)
    if below:
        return None
    notnan = any((not b and c[0] == "truth" and c[1][0] == "call" and c[1][1] in ("numpy.isnan", "math.isnan") and c[1][3] == (t,)) or (b and c[0] == "truth" and c[1][0] == "call" and c[1][1] in ("numpy.isfinite", "math.isfinite") and c[1][3] == (t,)) or (b and c == ("cmp", "==", t, t)) for c, b in facts)
    above = any(not b and c[0] == "cmp" and c[1] in ("<", "<=") and c[3] == t and is_const(c[2]) and c[2][2] <= 5.0e20 for c, b in facts)
    if notnan and above:
        return None
    return "used without having been compared below the threshold (NaN and infinities pass)"


def check_tell(ctx: Ctx) -> None:
    cls = optimizer(ctx)
    f = cls.find_method("tell")
    if f is None:
        raise AnalysisBroken("Optimizer.tell vanished")
    ctx.rule("sanitised", "every use of the told scalar loss in tell is clipped or known to be below the threshold on that path", 50)
    ctx.rule("loss-recorded", "the loss recorded on the candidate and given to the callbacks is the sanitised loss", 10)
    ctx.rule("admissible-only", "the archive is updated exactly once for an admissible evaluation and never for one which violates a constraint", 20)
    ctx.rule("told-loss", "the algorithm is told the recorded loss, plus a penalty only if a constraint is violated", 20)

    class Pol(P):
        def keep(self, cond: Term) -> bool:
            return any(s[0] == "attr" and s[2] in ("_num_objectives", "_no_hypervolume", "size") for s in subterms(cond))

    pol = Pol(opaque=CONTRACT | {"_warn", "_preprocess_multiobjective", "_update_archive_and_bests", "penalty"}, unroll=(0, 1), stable_attrs=frozenset(["_num_objectives", "budget", "_no_hypervolume"]), ignore=frozenset(["builtins.print", "builtins.len"]))
    C = "Optimizer.tell"
    for p in ctx.paths(f, pol):
        if p.kind != "return":
            continue
        upd = [e for e in p.events if is_call(e, "_update_archive_and_bests") and e.data["recv"] == SELF]
        deliv = [e for e in p.events if is_call(e, "_internal_tell_candidate", "_internal_tell_not_asked", "_internal_tell") and e.data["recv"] == SELF]
        if not deliv:
            continue
        note = path_note(p)
        rec = [e for e in p.events if e.kind == "setattr" and e.data["name"] == "loss"]
        if len(rec) != 1:
            ctx.bad("loss-recorded", C + ":candidate.loss", f.loc(), f"the loss is recorded {len(rec)} times on the candidate", note)
            continue
        base = rec[0].data["value"]
        why = is_sanitised(base, p)
        ctx.check("sanitised", why is None, C + ":candidate.loss", rec[0].loc, why or "", note)
        x = arg(deliv[0], 0, "candidate")
        ctx.check("loss-recorded", rec[0].data["base"] == x, C + ":candidate", rec[0].loc, f"recorded on {show(rec[0].data['base'])} instead of {show(x)}", note)
        for e in p.events:
            if e.kind == "call" and e.data["name"] == "<value>" and e.data["recv"] is not None and contains(e.data["recv"], attr("_callbacks")):
                a = e.data["args"]
                ctx.check("loss-recorded", a == (SELF, x, base), C + ":callback", e.loc, f"a callback receives {[show(z) for z in a]}", note)
        # curve
        for e in p.events:
            val = None
            if e.kind == "setattr" and e.data["name"] == "optim_curve":
                val = e.data["value"]
            elif e.kind == "call" and e.data["recv"] == attr("optim_curve") and short(e) in ("append", "extend"):
                val = e.data["args"][0]
            if val is not None:
                items = [s for s in subterms(val)] + [z for s in subterms(val) if s[0] in ("list",) for y in p.heap.get((s, "#items"), ()) for z in subterms(y)]
                raw = [s for s in items if s == LOSS]
                cl = [s for s in items if s == base]
                ctx.check("sanitised", bool(cl) or not raw, C + ":optim_curve", e.loc, "an unsanitised loss is recorded in the optimization curve", note)
        # admissibility
        conds = dict()
        for t, b in p.conds:
            conds.setdefault(t, b)
        viol = any(t[0] == "truth" and t[1][0] == "call" and t[1][1].endswith("satisfies_constraints") and t[1][2] == x and not b for t, b in p.conds)
        checked = any(t[0] == "truth" and t[1][0] == "call" and t[1][1].endswith("satisfies_constraints") and t[1][2] == x for t, b in p.conds) or any(is_call(e, "satisfies_constraints") and e.data["recv"] == x for e in p.events)
        nobudget = conds.get(("cmp", "is", attr("budget"), NONE)) is True
        has_cv = conds.get(("cmp", "is", ("param", "constraint_violation"), NONE)) is False
        cv_pos: tp.Optional[bool] = None
        for t, b in p.conds:
            if t[0] == "cmp" and t[1] == "<" and is_const(t[2]) and t[2][2] == 0 and contains(t[3], ("param", "constraint_violation")):
                cv_pos = b
            if t[0] == "cmp" and t[1] == "<=" and is_const(t[3]) and t[3][2] == 0 and contains(t[2], ("param", "constraint_violation")):
                cv_pos = not b
            if t[0] == "truth" and contains(t[1], ("param", "constraint_violation")) and t[1] != ("param", "constraint_violation"):
                cv_pos = b
        multi = any(t[0] == "truth" and t[1] == attr("_no_hypervolume") and b for t, b in p.conds) or any(t[0] == "cmp" and contains(t, attr("_no_hypervolume")) for t, b in p.conds)
        # neither one nor several objectives: the number of objectives is a positive integer, so the path is infeasible
        objs = [(t, b) for t, b in p.conds if t[0] == "cmp" and (contains(t, attr("_num_objectives")) or any(s[0] == "attr" and s[2] == "size" for s in subterms(t)))]
        none_of = any(t[1] == "==" and const(1) in t[2:] and not b for t, b in objs) and any(t[1] == "<" and t[2] == const(1) and not b for t, b in objs)
        pens = [e for e in p.events if is_call(e, "penalty")]
        if upd:
            ok = len(upd) == 1 and (not viol or nobudget) and (checked or nobudget) and (not has_cv or cv_pos is False)
            ctx.check("admissible-only", ok, C + ":update", upd[0].loc, "the archive is updated for an evaluation which violates a constraint (or was not checked), or twice", note)
            a = upd[0].data["args"]
            l = arg(upd[0], 1, "loss")
            same = l == base or (has_cv and cv_pos is False and l is not None and contains(l, base)) or (viol and nobudget and contains(l, base))
            ctx.check("admissible-only", a[0] == x and same, C + ":update-args", upd[0].loc, f"the archive records {show(l)} for {show(a[0])}", note)
        else:
            excused = viol or (has_cv and cv_pos is True) or multi or none_of
            ctx.check("admissible-only", excused, C + ":no-update", f.loc(), "an admissible evaluation does not reach the archive", note)
        # told loss
        l = arg(deliv[0], 1, "loss")
        if viol and not nobudget:
            ok = l is not None and contains(l, base) and any(contains(l, e.data["result"]) for e in pens)
            ctx.check("told-loss", ok, C + ":penalty", deliv[0].loc, f"a constraint violation is not penalised: told {show(l)}", note)
        elif has_cv:
            ok = l is not None and contains(l, base) and contains(l, ("param", "constraint_violation"))
            ctx.check("told-loss", ok, C + ":constraint_violation", deliv[0].loc, f"the reported violation is not part of the told loss {show(l)}", note)
        else:
            ctx.check("told-loss", l == base, C + ":plain", deliv[0].loc, f"the algorithm is told {show(l)} instead of the recorded loss", note)


def check_update(ctx: Ctx) -> None:
    cls = optimizer(ctx)
    f = cls.find_method("_update_archive_and_bests")
    if f is None:
        raise AnalysisBroken("Optimizer._update_archive_and_bests vanished")
    ctx.rule("archive-once", "an evaluation creates its archive entry or is added to the existing one, exactly once, under the candidate's standardized data", 10)
    ctx.rule("best-parameter", "the parameter of an entry is replaced only by a candidate with a lower loss", 2)
    ctx.rule("bests", "a current best is replaced iff the new entry is at least as good for that criterion, and re-elected over the whole archive if its own entry changed", 20)
    ctx.rule("pruned", "pruning replaces the archive by its pruned version", 2)

    class Pol(P):
        opaque = CONTRACT | {"_warn", "get_estimation", "add_evaluation", "values"}
        unroll = (1,)

        def pure(self, name: str) -> bool:
            return name.endswith("get_estimation") or name.endswith("values")

    A = attr("archive")
    C = "Optimizer._update_archive_and_bests"
    cand, loss = (("param", a.arg) for a in f.params[1:3])
    for p in ctx.paths(f, Pol()):
        if p.kind != "return":
            continue
        note = path_note(p)
        stores = [e for e in p.events if (e.kind == "setitem" and e.data["base"] == A) or (e.kind == "call" and short(e) == "__setitem__" and e.data["recv"] == A)]
        adds = [e for e in p.events if is_call(e, "add_evaluation")]
        known = [(t, b) for t, b in p.conds if t[0] == "cmp" and t[1] == "in" and t[3] == A]
        if not known:
            known = [(t, not b) for t, b in p.conds if t[0] == "cmp" and t[1] == "is" and t[3] == NONE and contains(t[2], A)]
        if not known:
            ctx.bad("archive-once", C + ":membership", f.loc(), "the entry is recorded without testing whether the point is already in the archive", note)
            continue
        inside = known[0][1]
        if inside:
            ok = len(adds) == 1 and not stores and contains(adds[0].data["recv"], A) and adds[0].data["args"] == (loss,)
            ctx.check("archive-once", ok, C + ":existing", adds[0].loc if adds else f.loc(), f"existing point: {len(adds)} addition(s), {len(stores)} overwrite(s)", note)
        else:
            ok = len(stores) == 1 and not adds
            ctx.check("archive-once", ok, C + ":new", stores[0].loc if stores else f.loc(), f"new point: {len(stores)} creation(s), {len(adds)} addition(s)", note)
            if ok:
                x = stores[0].data["idx"]
                okx = x[0] == "call" and x[1].endswith("get_standardized_data") and x[2] == cand and dict(x[4]).get("reference") == attr("parametrization")
                ctx.check("archive-once", okx, C + ":key", stores[0].loc, f"stored under {show(x)}", note)
                mk = [e for e in p.events if e.kind == "call" and e.data["result"] == stores[0].data["value"]]
                okv = bool(mk) and arg(mk[0], 0, "parameter") == cand and arg(mk[0], 1, "y") == loss and dict(mk[0].data["kwargs"]).get("reference") == attr("parametrization")
                ctx.check("archive-once", okv, C + ":value", stores[0].loc, "the stored entry is not built from the candidate and its loss", note)
        for e in p.events:
            if e.kind == "setattr" and e.data["name"] == "parameter":
                lo = ("attr", cand, "loss")
                good = e.data["value"] == cand and any(t[0] == "cmp" and t[1] == "<" and t[2] == lo and b for t, b in e.cond_list()) or any(t[0] == "cmp" and t[1] == "<=" and t[3] == lo and not b for t, b in e.cond_list())
                ctx.check("best-parameter", good, C + ":parameter", e.loc, "the entry's parameter is replaced by a candidate which is not better", note)
        # current bests
        B = attr("current_bests")
        entry = None
        if stores:
            entry = stores[0].data["value"]
        elif adds:
            entry = adds[0].data["recv"]
        iters = [e for e in p.events if e.kind == "iter" and e.data["it"] is not None and contains(e.data["it"], B)]
        brk = [e for e in p.events if e.kind == "loopbreak"]
        ctx.check("bests", bool(iters) and not brk, C + ":all-criteria", f.loc(), "not every criterion is examined", note)
        for it in iters:
            el = it.data["elem"]
            name = el[1][0] if el[0] == "tuple" else el
            cur = ("sub", B, name) if el[0] != "tuple" else el[1][1]
            curs = {cur, ("sub", B, name)}
            writes = [e for e in p.events if e.kind == "setitem" and e.data["base"] == B and e.data["idx"] == name]
            same = [b for t, b in p.conds if t[0] == "cmp" and t[1] in ("is", "==") and (t[2] in curs or t[3] in curs)]
            is_same = bool(same) and same[-1]
            est = lambda m: ("call", "MultiValue.get_estimation", m, (name,), ())  # noqa: E731
            better: tp.Optional[bool] = None
            for t, b in p.conds:
                if t[0] == "cmp" and t[1] in ("<", "<="):
                    l, r = t[2], t[3]
                    lrecv = l[2] if l[0] == "call" and l[1].endswith("get_estimation") and l[3] == (name,) else None
                    rrecv = r[2] if r[0] == "call" and r[1].endswith("get_estimation") and r[3] == (name,) else None
                    if lrecv is None or rrecv is None:
                        continue
                    if rrecv in curs and lrecv not in curs:
                        better = b
                    elif lrecv in curs and rrecv not in curs:
                        better = not b
            if writes:
                v = writes[-1].data["value"]
                reelect = v[0] == "call" and v[1] == "builtins.min" and contains(v[3], ("attr", SELF, "archive")) and any(k == "key" and y[0] == "keyfn" and y[2][0] == "call" and y[2][1].endswith("get_estimation") and y[2][2] == y[1] and y[2][3] == (name,) for k, y in v[4])
                isentry = v == entry or (v[0] in ("sub", "call") and contains(v, A) and not reelect)
                good = reelect or (isentry and better is True)
                ctx.check("bests", good, C + ":replace", writes[-1].loc, f"a current best becomes {show(v)} without being at least as good for its criterion", note)
                if is_same:
                    ctx.check("bests", reelect, C + ":re-elect", writes[-1].loc, "the criterion whose own entry changed is not re-elected over the whole archive", note)
            else:
                ctx.check("bests", not is_same, C + ":re-elect", it.loc, "the criterion whose own entry changed keeps a possibly outdated best", note)
                if not is_same:
                    ctx.check("bests", better is False, C + ":stale", it.loc, "a new entry at least as good does not become the current best", note)
            if inside and not is_same:
                ctx.check("bests", bool(same), C + ":own-entry", it.loc, "an updated entry is not compared with the current best it may be", note)
        v = p.heap.get((SELF, "archive"))
        none = [b for t, b in p.conds if t == ("cmp", "is", attr("pruning"), NONE) or t == ("truth", attr("pruning"))]
        if v is not None:
            ok = v[0] == "call" and v[3] == (A,) and (v[2] == attr("pruning") or v[2] == SELF and v[1].endswith("pruning"))
            ctx.check("pruned", ok, C + ":pruning", f.loc(), f"the archive becomes {show(v)}", note)
        else:
            ctx.ok("pruned", C)


def check_values(ctx: Ctx) -> None:
    mv = ctx.project.cls(OPT + ".utils", "MultiValue")
    g, add = mv.find_method("get_estimation"), mv.find_method("add_evaluation")
    if g is None or add is None:
        raise AnalysisBroken("MultiValue lost get_estimation or add_evaluation")
    ctx.rule("estimations", "each criterion name maps to its own estimate (optimistic below the mean, pessimistic above)", 4)
    pol = P(opaque=frozenset())
    for p in ctx.paths(g, pol):
        nm = [t[3][2] for t, b in p.conds if t[0] == "cmp" and t[1] == "==" and b and is_const(t[3])]
        if p.kind == "raise":
            continue
        if len(nm) != 1:
            ctx.bad("estimations", "MultiValue.get_estimation", g.loc(), "an unknown criterion gets a value", path_note(p))
            continue
        v = p.value
        if v[0] == "call" and v[1] == "builtins.float" and v[3]:
            v = v[3][0]
        M = attr("mean")
        spread = ("attr", SELF, "variance")
        want = {
            "minimum": v == attr("_minimum"),
            "average": v == M,
            "optimistic": v[0] == "bin" and v[1] == "-" and v[2] == M and contains(v[3], spread),
            "pessimistic": v[0] == "bin" and v[1] == "+" and ((v[2] == M and contains(v[3], spread)) or (v[3] == M and contains(v[2], spread))),
        }.get(nm[0], True)
        ctx.check("estimations", want, f"MultiValue.get_estimation:{nm[0]}", g.loc(), f"{nm[0]} is estimated by {show(v)}", path_note(p))
    ctx.rule("evaluation-counted", "adding an evaluation counts it once and keeps the smallest value seen", 3)
    y = ("param", add.params[1].arg)
    pol = P(opaque=frozenset(), raises=lambda ev: ev.data["name"].startswith("math."))
    for p in ctx.paths(add, pol):
        if p.kind != "return":
            continue
        c = p.heap.get((SELF, "count"))
        ctx.check("evaluation-counted", c == ("bin", "+", attr("count"), const(1)), "MultiValue.add_evaluation:count", add.loc(), f"count becomes {show(c)}", path_note(p))
        m = p.heap.get((SELF, "_minimum"), attr("_minimum"))
        if m[0] == "call" and m[1] == "builtins.min":
            ok = attr("_minimum") in m[3] and all(a == attr("_minimum") or a == y or is_const(a) for a in m[3])
        else:
            lower = any((t == ("cmp", "<", y, attr("_minimum")) or t == ("cmp", "<=", y, attr("_minimum"))) and b for t, b in p.conds)
            ok = (m != attr("_minimum")) == lower
        ctx.check("evaluation-counted", ok, "MultiValue.add_evaluation:minimum", add.loc(), f"the minimum becomes {show(m)}", path_note(p))
    # pruning
    pr = ctx.project.cls(OPT + ".utils", "Pruning")
    call = pr.find_method("__call__")
    if call is None:
        raise AnalysisBroken("Pruning is not callable any more")
    ctx.rule("pruning-keeps-best", "pruning only filters entries of the given archive, keeping each entry below the quantile of any criterion, and is skipped below the maximum length", 2)

    class Pol2(P):
        opaque = frozenset(["get_estimation", "values"])
        unroll = (1,)

        def pure(self, name: str) -> bool:
            return name.endswith("get_estimation") or name.endswith("values")

    a = ("param", call.params[1].arg)
    for p in ctx.paths(call, Pol2()):
        if p.kind != "return":
            continue
        if p.value == a:
            mut = [e for e in p.events if (e.kind in ("setitem", "delitem", "setattr") and contains(e.data["base"], a)) or (e.kind == "call" and e.data["recv"] is not None and contains(e.data["recv"], a) and short(e) in Interp.MUTATORS)]
            ctx.check("pruning-keeps-best", not mut, "Pruning.__call__:inplace", call.loc(), "the archive is modified in place", path_note(p))
            continue
        d = p.heap.get((p.value, "bytesdict"))
        items = p.heap.get((d, "#items")) if d is not None else None
        if items is None:
            ctx.bad("pruning-keeps-best", "Pruning.__call__:content", call.loc(), "the content of the pruned archive cannot be traced to the given one", path_note(p))
            continue
        lim = any(t[0] == "cmp" and contains(t, attr("max_len")) and contains(t, a) and ((t[1] == "<" and t[3] == attr("max_len") and not b) or (t[1] == "<=" and t[2] == attr("max_len") and b)) for t, b in p.conds)
        ctx.check("pruning-keeps-best", lim, "Pruning.__call__:threshold", call.loc(), "pruning runs although the archive is not too long", path_note(p))
        for k, v in items:
            src = contains(k, ("attr", a, "bytesdict")) and contains(v, ("attr", a, "bytesdict")) and k[0] == "key" and v[0] == "val"
            below = v in [below_quantile(t, b) for t, b in p.conds]
            ctx.check("pruning-keeps-best", src and below, "Pruning.__call__:filter", call.loc(), "an entry is kept without being below the quantile of a criterion, or is not an entry of the archive", path_note(p))
        kept = [v for k, v in items]
        for t, b in p.conds:
            low = below_quantile(t, b)
            if low is not None and contains(low, ("attr", a, "bytesdict")):
                ctx.check("pruning-keeps-best", low in kept, "Pruning.__call__:dropped", call.loc(), "an entry below the quantile of a criterion is dropped", path_note(p))
    for m in pr.methods.values():
        for node in ast.walk(m.node):
            below = quantified(node)
            if below is not None:
                ctx.check("pruning-keeps-best", below, f"Pruning.{m.name}:quantifier", m.loc(node), f"`{ast.unparse(node)[:100]}` asks for every criterion: one below its quantile is enough to be kept", "")


def below_quantile(t: Term, b: bool) -> tp.Optional[Term]:
    """the entry that this condition says is below a quantile"""
    if t[0] != "cmp" or t[1] not in ("<", "<="):
        return None
    e = t[2] if b else t[3]
    return e[2] if e[0] == "call" and e[1].endswith("get_estimation") else None


def quantified(node: ast.AST) -> tp.Optional[bool]:
    """any(<below a quantile>) or all(<not below>): True; the two others: False; anything else: None"""
    if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("any", "all") and node.args):
        return None
    gen = node.args[0]
    if not isinstance(gen, (ast.GeneratorExp, ast.ListComp)):
        return None
    elt, flip = gen.elt, False
    while isinstance(elt, ast.UnaryOp) and isinstance(elt.op, ast.Not):
        elt, flip = elt.operand, not flip
    if not (isinstance(elt, ast.Compare) and len(elt.ops) == 1):
        return None
    sides = ["get_estimation" in ast.unparse(x) for x in (elt.left, elt.comparators[0])]
    if sides[0] == sides[1] or not isinstance(elt.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
        return None
    below = isinstance(elt.ops[0], (ast.Lt, ast.LtE)) == sides[0]
    return (below != flip) == (node.func.id == "any")


def check_recommend(ctx: Ctx) -> None:
    cls = optimizer(ctx)
    f = cls.find_method("recommend")
    if f is None:
        raise AnalysisBroken("Optimizer.recommend vanished")
    ctx.rule("recommend", "the default recommendation is the best of the relevant criterion, or a fresh child set to the algorithm's own recommendation", 3)
    pr = cls.find_method("provide_recommendation")
    pol = P(opaque=CONTRACT - {"recommend", "provide_recommendation"})
    for m in (f, pr):
        if m is None:
            continue
        for p in ctx.paths(m, pol):
            if p.kind != "return":
                continue
            v = p.value
            det = [b for t, b in p.conds if t[0] == "truth" and t[1][0] == "attr" and t[1][2] == "deterministic"]
            if v[0] == "attr" and v[2] == "parameter":
                ok = bool(det) and v[1] == ("sub", attr("current_bests"), const("minimum" if det[-1] else "pessimistic"))
                ctx.check("recommend", ok, f"Optimizer.{m.name}:incumbent", m.loc(), f"recommends {show(v)}", path_note(p))
            else:
                sets = [e for e in p.events if is_call(e, "set_standardized_data")]
                ok = len(sets) == 1 and contains(v, ("call",) + tuple()) is False
                child = sets[0].data["recv"] if sets else None
                ok = len(sets) == 1 and (v == child or v == sets[0].data["result"]) and child is not None and child[0] == "call" and child[1].endswith("spawn_child") and child[2] == attr("parametrization")
                data = sets[0].data["args"][0] if sets and sets[0].data["args"] else None
                ok = ok and data is not None and data[0] == "call" and data[1].endswith("_internal_provide_recommendation")
                ctx.check("recommend", ok, f"Optimizer.{m.name}:own", m.loc(), f"recommends {show(v)}", path_note(p))


def check_writers(ctx: Ctx) -> None:
    cls = optimizer(ctx)
    ctx.rule("archive-writers", "archive, current_bests and the recorded losses are only written by the core loop", 8)
    owners = set(ctx.functions) | {cls.methods["__init__"].fullname}
    # comparison-only API: synthetic losses are told, then stored for the very candidate
    exempt = {f"{BASE}:addCompare.<locals>.compare"}
    par = parameter(ctx)
    for f, n, name, base in attribute_writes(ctx.project, {"archive", "current_bests", "loss", "_losses"}, "nevergrad"):
        if not f.module.name.startswith((OPT, PARAM)):
            continue
        bt = ctx.project.expr_type(base, f)
        if name in ("loss", "_losses"):
            if isinstance(bt, ClassInfo) and not bt.is_subclass_of(par):
                continue
            own = f.fullname in owners or (f.cls is not None and f.cls.is_subclass_of(par) and f.name in ("__init__", "copy"))
        else:
            if isinstance(bt, ClassInfo) and not bt.is_subclass_of(cls):
                continue
            own = f.fullname in owners or f.fullname in exempt
        ctx.check("archive-writers", own, f"{f.fullname}:{name}", f.loc(n), f"{name} is written outside of the core loop")


def check(ctx: Ctx) -> None:
    check_tell(ctx)
    check_update(ctx)
    check_values(ctx)
    check_recommend(ctx)
    check_writers(ctx)
