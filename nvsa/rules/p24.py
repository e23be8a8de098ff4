"""Callbacks run exactly once per event; logging never disturbs the run."""
from __future__ import annotations

from .common import *

TECHNIQUE = "path enumeration of ask, tell and of the bundled callbacks; effect analysis on the optimizer and the candidate"
EXPLANATION = (
    "Every path of ask and tell that returns runs through the registered list once, in order, with the documented arguments, before the "
    "candidate is produced or before the loss is delivered; overrides forward to them. Every bundled callback is explored: nothing "
    "reachable from the optimizer, the candidate or the loss is modified, exactly one line is appended per call, failures to write are "
    "announced and not raised, nothing but the stopping callback raises, and recommendations are requested only when there is one."
)
CB = "nevergrad.optimization.callbacks"


def callback_runs(p: Path, name: str) -> tp.List[tp.Tuple[int, str, Event]]:
    """(position, loop|end|call, event) of the traversal of the registered callbacks."""
    out = []
    for i, e in enumerate(p.events):
        if e.kind in ("iter", "loopend", "loopbreak") and over(e.data["it"], name):
            out.append((i, e.kind, e))
    return out


def over(it: tp.Any, name: str) -> bool:
    return isinstance(it, tuple) and contains(it, attr("_callbacks")) and contains(it, const(name))


def in_order(p: Path, it: tp.Any, name: str) -> bool:
    """The list itself, or a plain copy of it."""
    if not isinstance(it, tuple):
        return False
    if it[0] == "call" and it[1] in ("builtins.list", "builtins.tuple") and it[3]:
        return in_order(p, it[3][0], name)
    if it[0] == "call" and it[1].rsplit(".", 1)[-1] in ("get", "copy", "setdefault"):
        return it[2] == attr("_callbacks") or it[1].endswith("copy") and in_order(p, it[2], name)
    if it[0] in ("val", "sub"):
        return it[1] == attr("_callbacks") or it[0] == "sub" and isinstance(it[2], tuple) and it[2][0] == "slice" and in_order(p, it[1], name)
    return False


def check_core(ctx: Ctx) -> None:
    ctx.rule("once-per-ask", "every ask runs each registered callback once, in order, with the optimizer, before it produces the candidate", 6)
    ctx.rule("once-per-tell", "every tell of an evaluation runs each registered callback once, in order, with the candidate and its loss, before the loss reaches the algorithm", 6)
    ctx.rule("registration", "registering appends to the list of the given event and only to it", 2)
    ctx.rule("overrides", "an override of ask or tell runs the original once", 0)
    cls = optimizer(ctx)
    produce = ("_internal_ask_candidate", "_internal_ask", "pop", "spawn_child")
    deliver = ("_internal_tell_candidate", "_internal_tell_not_asked", "_update_archive_and_bests")
    for name, rule in (("ask", "once-per-ask"), ("tell", "once-per-tell")):
        f = cls.find_method(name)
        if f is None:
            raise AnalysisBroken(f"Optimizer.{name} vanished")

        class Pol(P):
            opaque = CONTRACT | {"_warn", "warn", "_constraint_solver", "_preprocess_multiobjective", "_update_archive_and_bests", "penalty"}
            unroll = (0, 1) if name == "ask" else (0, 2)
            stable_attrs = frozenset(["_callbacks", "_constraints_manager"])

            def keep(self, cond: Term) -> bool:
                return contains(cond, attr("_callbacks"))

        for p in ctx.paths(f, Pol()):
            note = path_note(p)
            runs = callback_runs(p, name)
            lids = {e.data["lid"] for _, _, e in runs}
            stray = [e for e in p.events if e.kind == "call" and e.data["name"] == "<value>" and contains(e.data["recv"], attr("_callbacks"))]
            if p.kind != "return":
                ctx.check(rule, len(lids) <= 1, f"Optimizer.{name}:twice", f.loc(), "the callbacks are run twice", note)
                continue
            reference = name == "tell" and not any(is_call(e, *deliver) for e in p.events)
            if reference:
                ctx.check(rule, not runs, "Optimizer.tell:reference", f.loc(), "callbacks run for a bare reference point", note)
                continue
            skipped = any(contains(t, attr("_callbacks")) and not b for t, b in p.conds)
            ctx.check(rule, len(lids) == 1 or skipped and not lids, f"Optimizer.{name}", f.loc(), f"the callbacks are run {len(lids)} times", note)
            if not runs:
                continue
            ctx.check(rule, all(in_order(p, e.data["it"], name) for _, _, e in runs), f"Optimizer.{name}:order", runs[0][2].loc, f"the callbacks are taken from {show(runs[0][2].data['it'])}", note)
            ctx.check(rule, not any(k == "loopbreak" for _, k, _ in runs), f"Optimizer.{name}:all", runs[0][2].loc, "the traversal of the callbacks stops early", note)
            elems = [e.data["elem"] for _, k, e in runs if k == "iter"]
            for x in elems:
                calls = [e for e in stray if e.data["recv"] == x]
                ok = len(calls) == 1
                ctx.check(rule, ok, f"Optimizer.{name}:each", runs[0][2].loc, f"a callback is called {len(calls)} times", note)
                if not ok:
                    continue
                c = calls[0]
                a = c.data["args"]
                if name == "ask":
                    ctx.check(rule, a == (SELF,) and not c.data["kwargs"], "Optimizer.ask:args", c.loc, "the callback does not get the optimizer alone", note)
                else:
                    ok = len(a) == 3 and a[0] == SELF and not c.data["kwargs"]
                    losses = [e for e in p.events if e.kind == "setattr" and e.data["name"] == "loss" and ok and e.data["base"] == a[1]]
                    told = [e for e in p.events if is_call(e, "_internal_tell_candidate", "_internal_tell_not_asked") and ok and e.data["args"][:1] == (a[1],)]
                    ctx.check(rule, ok and bool(told), "Optimizer.tell:candidate", c.loc, "the callback does not get the candidate whose loss is delivered", note)
                    ctx.check(rule, ok and bool(losses) and losses[-1].data["value"] == a[2] and p.events.index(losses[-1]) < p.events.index(c), "Optimizer.tell:loss", c.loc, "the callback does not get the loss recorded on the candidate", note)
            pos = max([i for i, _, _ in runs])
            first = [i for i, e in enumerate(p.events) if is_call(e, *(produce if name == "ask" else deliver))]
            ctx.check(rule, not first or pos < first[0], f"Optimizer.{name}:before", f.loc(), "the callbacks run after the candidate was produced or the loss delivered", note)
        for sub in cls.all_subclasses():
            m = sub.methods.get(name)
            if m is not None:
                for p in ctx.paths(m, P(opaque=CONTRACT)):
                    n = [e for e in p.events if e.kind == "call" and e.data["name"] in (f"super.{name}",)]
                    ctx.check("overrides", p.kind != "return" or len(n) == 1, f"{sub.name}.{name}", m.loc(), f"the original {name} is run {len(n)} times", path_note(p))
    reg, rem = cls.find_method("register_callback"), cls.find_method("remove_all_callbacks")
    if reg is None:
        raise AnalysisBroken("register_callback vanished")
    NAME, FUNC = ("param", reg.params[1].arg), ("param", reg.params[2].arg)
    for p in ctx.paths(reg, P(stable_attrs=frozenset(["_callbacks"]))):
        if p.kind != "return":
            continue
        adds = [e for e in p.events if e.kind == "call" and short(e) in ("append", "insert", "extend", "appendleft", "add") and contains(e.data["args"], FUNC)]
        sets = [e for e in p.events if e.kind == "setitem" and contains(e.data["value"], FUNC) or e.kind == "setattr" and e.data["name"] == "_callbacks"]
        created = [e for e in p.events if is_call(e, "setdefault") and e.data["recv"] == attr("_callbacks") and e.data["args"][:1] == (NAME,)] + [e for e in p.events if e.kind == "setitem" and e.data["base"] == attr("_callbacks") and e.data["idx"] == NAME]
        ok = len(adds) == 1 and short(adds[0]) == "append" and adds[0].data["args"] == (FUNC,) or not adds and len(created) == 1 and bool(sets) and contains(p.heap.get((created[0].data["value"], "#items"), ()) if created[0].kind == "setitem" else (), FUNC)
        target = not adds or contains(adds[0].data["recv"], attr("_callbacks")) and contains(adds[0].data["recv"], NAME) or any(adds[0].data["recv"] == e.data.get("value") for e in created)
        ctx.check("registration", ok and target, "Optimizer.register_callback", reg.loc(), "the callback is not appended to the list of its event", path_note(p))
        ctx.check("registration", not any(e.kind == "setattr" and e.data["name"] == "_callbacks" for e in p.events), "Optimizer.register_callback:reset", reg.loc(), "registering drops other callbacks", path_note(p))
    for f, node, name, base in attribute_writes(ctx.project, {"_callbacks"}, "nevergrad"):
        if f.cls is None or not f.cls.is_subclass_of(cls):
            if f.module.name.rsplit(".", 1)[-1].startswith("test_"):
                continue
        own = isinstance(base, ast.Name) and base.id == "self" and f.name in ("__init__", "register_callback", "remove_all_callbacks")
        ctx.check("registration", own, f.fullname, f.loc(node), "the registered callbacks are changed elsewhere")


FORBIDDEN = frozenset(
    "tell ask suggest minimize mutate recombine set_standardized_data sample freeze enable_pickling register_callback remove_all_callbacks register_cheap_constraint "
    "set_name set_bounds set_mutation set_integer_casting add_layer random_state _internal_ask_candidate _internal_tell_candidate _internal_tell_not_asked _warn "
    "_update_archive_and_bests shuffle seed set_state randint rand randn normal uniform choice permutation".split()
)


def bundled(ctx: Ctx) -> tp.List[tp.Tuple[ClassInfo, FuncInfo]]:
    out = []
    for c in ctx.project.module(CB).classes.values():
        f = c.methods.get("__call__")
        if f is not None and len(f.params) >= 2:
            out.append((c, f))
    if len(out) < 4:
        raise AnalysisBroken("the bundled callbacks vanished")
    return out


def check_bundled(ctx: Ctx) -> None:
    ctx.rule("no-effect", "bundled callbacks modify nothing reachable from the optimizer, the candidate or the loss", 20)
    ctx.rule("one-record", "the file logger appends exactly one record per call", 4)
    ctx.rule("write-failure", "a failure to write is announced, not raised", 2)
    ctx.rule("raises", "only the stopping callback raises, with the dedicated exception; other callbacks only report a missing optional package", 5)
    ctx.rule("recommendation-exists", "printers and loggers ask for a recommendation only with less than two objectives, and for the front only when it is not empty", 4)
    ctx.rule("interval", "printers and loggers report when their interval of tells or seconds has elapsed, and then only once per interval", 4)
    ctx.rule("options-used", "every option stored by a bundled callback is used", 8)
    for c, f in bundled(ctx):
        names = [a.arg for a in f.params][1:]
        roots = {("param", n) for n in names} | {("param", a.arg) for a in (f.node.args.vararg, f.node.args.kwarg) if a is not None}

        class Pol(P):
            opaque = CONTRACT | {"config", "flatten", "get_min_losses", "get_raw", "heritage", "losses", "num_objectives", "num_ask", "num_tell", "pareto_front"}
            unroll = (0, 1)

            def inline(self, func: FuncInfo, interp: tp.Any, state: tp.Any) -> bool:
                return func.name not in self.opaque and func.module.name == CB

            def keep(self, cond: Term) -> bool:
                return cond[0] == "truth" and cond[1] in roots or any(s[0] == "attr" and s[2] in ("num_objectives", "num_tell", "_next_tell", "_next_time") or s[0] == "call" and s[1].rsplit(".", 1)[-1] == "get_raw" for s in subterms(cond))

            def raises(self, e: Event) -> bool:
                return e.kind == "call" and short(e) in ("open", "dumps", "write") and c.name == "ParametersLogger"

        def outside(t: tp.Any) -> bool:
            return isinstance(t, tuple) and any(contains(t, r) for r in roots)

        stopper = any(b.name == "EarlyStopping" for b in c.mro) or any("NevergradEarlyStopping" in ast.unparse(n) for n in walk_local(f.node) if isinstance(n, ast.Raise))
        criterion = c.name.startswith("_")
        for p in ctx.paths(f, Pol(), cls=c):
            note = path_note(p)
            if p.kind == "raise":
                if stopper:
                    v = repr(p.value)
                    extra = any(t[0] == "truth" and t[1] in roots and b for t, b in p.conds)
                    ctx.check("raises", "NevergradEarlyStopping" in v or extra and "Nevergrad" in v, f"{c.name}.__call__", f.loc(), f"raises {show(p.value)}", note)
                else:
                    v = repr(p.value)
                    ctx.check("raises", "ImportError" in v, f"{c.name}.__call__", f.loc(), f"raises {show(p.value)}", note)
            else:
                ctx.ok("raises", f"{c.name}.__call__")
            for e in p.events:
                if e.kind in ("setattr", "setitem", "delitem", "delattr", "aug") and outside(e.data.get("base")):
                    ctx.bad("no-effect", f"{c.name}.__call__:{e.data.get('name', 'item')}", e.loc, f"changes {show(e.data['base'])}", note)
                elif e.kind == "call" and e.data["recv"] is not None and outside(e.data["recv"]):
                    s = short(e)
                    built = e.data["recv"][0] in ("list", "dict", "set", "new")
                    fresh = any(x[0] == "call" and x[1].rsplit(".", 1)[-1] in ("copy", "tolist", "config", "flatten", "dict", "list") for x in subterms(e.data["recv"]))
                    bad = s in FORBIDDEN or s in Interp.MUTATORS and not built and not fresh
                    ctx.check("no-effect", not bad, f"{c.name}.__call__:{s}", e.loc, f"calls {s} on {show(e.data['recv'])[:120]}", note)
                elif e.kind == "call" and e.data["name"] in ("builtins.setattr", "setattr", "numpy.random.seed", "random.seed"):
                    ctx.check("no-effect", not any(outside(x) for x in e.data["args"]) and not e.data["name"].endswith("seed"), f"{c.name}.__call__:setattr", e.loc, "changes the optimizer", note)
            if not stopper and not criterion:
                for e in p.events:
                    if e.kind == "call" and short(e) in ("provide_recommendation", "recommend") and outside(e.data["recv"]):
                        few = any(objectives(t) is not None and objectives(t)(b) for t, b in e.cond_list())
                        ctx.check("recommendation-exists", few, f"{c.name}.__call__:recommendation", e.loc, "a recommendation is requested although there may be several objectives", note)
                    if e.kind == "call" and short(e) == "get_min_losses":
                        some = any(t[0] == "truth" and contains_call(t, "get_raw") and b or t[0] == "cmp" and contains_call(t, "get_raw") for t, b in e.cond_list())
                        ctx.check("recommendation-exists", some, f"{c.name}.__call__:front", e.loc, "the best losses are requested although the front may be empty", note)
            if c.name == "ParametersLogger":
                writes = [e for e in p.events if is_call(e, "write", "writelines", "dump", "write_text")]
                caught = [e for e in p.events if e.kind == "caught"]
                raised = [e for e in p.events if e.kind == "call" and e.data.get("raised")]
                if p.kind == "return" and not caught:
                    ok = len(writes) == 1 and ends_line(writes[0])
                    ctx.check("one-record", ok, "ParametersLogger.__call__", f.loc(), f"{len(writes)} records are written", note)
                    opens = [e for e in p.events if is_call(e, "open")]
                    modes = [arg(e, 0 if e.data["recv"] is not None else 1, "mode") for e in opens]
                    ctx.check("one-record", len(opens) == 1 and all(m is not None and is_const(m) and "a" in m[2] for m in modes), "ParametersLogger.__call__:append", f.loc(), "the file is not opened for appending", note)
                if raised:
                    ctx.check("write-failure", p.kind == "return" and any(is_call(e, "warn") for e in p.events), "ParametersLogger.__call__:failure", f.loc(), "a failure to write is raised or silent", note)
        # interval
        attrs = {n.attr for n in walk_local(f.node) if isinstance(n, ast.Attribute)}
        if any(a.endswith("_interval_tells") for a in {n.attr for g in c.methods.values() for n in walk_local(g.node) if isinstance(n, ast.Attribute)}):
            check_interval(ctx, c, f, Pol())
        init = c.methods.get("__init__")
        if init is not None and attrs:
            stored = {}
            for n in walk_local(init.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and n.value is not None and any(isinstance(x, ast.Name) and x.id in {a.arg for a in init.params[1:]} | {a.arg for a in init.node.args.kwonlyargs} for x in ast.walk(n.value)):
                            stored[t.attr] = n
            used = {n.attr for g in c.methods.values() for n in walk_local(g.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
            for a, n in stored.items():
                ctx.check("options-used", a in used, f"{c.name}.{a}", init.loc(n), "the option is stored but nothing reads it")


def contains_call(t: tp.Any, name: str) -> bool:
    return any(s[0] == "call" and s[1].rsplit(".", 1)[-1] == name for s in subterms(t))


def objectives(t: tp.Any) -> tp.Optional[tp.Callable[[bool], bool]]:
    """Whether a condition on num_objectives implies less than two of them."""
    if t[0] != "cmp":
        return None
    a, b = t[2], t[3]
    is_n = lambda x: isinstance(x, tuple) and (x[0] == "attr" and x[2] == "num_objectives" or contains_call(x, "num_objectives"))
    if is_n(a) and is_const(b) or is_n(b) and is_const(a):
        n, flip = (b[2], False) if is_n(a) else (a[2], True)
        op = t[1]
        if flip:
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)

        def implies(truth: bool) -> bool:
            import operator

            fn = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}.get(op)
            return fn is not None and not any(fn(k, n) is truth for k in range(2, 8))

        return implies
    return None


def ends_line(e: Event) -> bool:
    return any(s == const("\n") or is_const(s) and isinstance(s[2], str) and s[2].endswith("\n") for a in e.data["args"] for s in subterms(a)) or "\\n" in repr(e.data["args"])


def check_interval(ctx: Ctx, c: ClassInfo, f: FuncInfo, pol: Policy) -> None:
    num = lambda t: any(s[0] == "attr" and s[2] == "num_tell" or s[0] == "call" and s[1].rsplit(".", 1)[-1] == "num_tell" for s in subterms(t))
    nxt = lambda t: any(s[0] == "attr" and s[2] == "_next_tell" for s in subterms(t))
    for p in ctx.paths(f, pol, cls=c):
        note = path_note(p)
        reports = [e for e in p.events if e.kind == "call" and (e.data["name"] == "builtins.print" or short(e) in ("log", "info", "write")) or is_call(e, "provide_recommendation", "recommend", "get_min_losses")]
        elapsed = None
        for t, b in p.conds:
            if t[0] == "cmp" and num(t) and nxt(t) and t[1] in ("<", "<=", ">", ">="):
                left = num(t[2])
                later = t[1] in (">", ">=") if left else t[1] in ("<", "<=")
                elapsed = later == b
        clock = any(t[0] == "cmp" and any(s[0] == "attr" and s[2] == "_next_time" for s in subterms(t)) and (t[1] in (">", ">=") and contains_call(t[2], "time") or t[1] in ("<", "<=") and contains_call(t[3], "time")) == b and t[1] in ("<", "<=", ">", ">=") for t, b in p.conds)
        if reports:
            ctx.check("interval", elapsed is True or clock, f"{c.name}.__call__:early", f.loc(), "reports although neither interval has elapsed", note)
        elif p.kind == "return" and not any(contains_call(t, "get_raw") or "_hypervolume_pareto" in repr(t) for t, b in p.conds):
            ctx.check("interval", not (elapsed is True or clock), f"{c.name}.__call__:late", f.loc(), "does not report although an interval has elapsed", note)
        if elapsed is True or clock:
            sets = [e for e in p.events if e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == "_next_tell"]
            ok = bool(sets) and num(sets[-1].data["value"]) and any(s[0] == "attr" and s[2].endswith("_interval_tells") for s in subterms(sets[-1].data["value"]))
            ctx.check("interval", ok, f"{c.name}.__call__:next", f.loc(), "the next report is not scheduled one interval later", note)


def check(ctx: Ctx) -> None:
    check_core(ctx)
    check_bundled(ctx)
