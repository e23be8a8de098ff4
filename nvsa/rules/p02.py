"""Frozen candidates and parametrizations."""
from __future__ import annotations

from .common import *

EXPLANATION = (
    "Paths of ask, tell and the optimizer constructor: the candidate/parametrization is frozen before it leaves or is processed, and not "
    "modified afterwards. Paths of every public modifier of every Parameter class: no write or internal modifier is reached on an object "
    "before its frozen state has been checked on that very path. Every raw write of parameter data in the package is on a fresh object, "
    "after such a check, in a constructor, or in an internal modifier, whose callers are held to the same rule."
)
# modifiers without their own check: only to be reached through a checked operation
INTERNAL = {"_internal_set_standardized_data", "_layered_mutate", "_layered_recombine"}
# roots of the value: must check by themselves
SETTER = "_layered_set_value"
RAW = {"_value", "_content"}
VIEWS = {"asarray", "ravel", "reshape", "view", "asanyarray", "squeeze", "transpose", "T"}
PUBLIC = {"mutate", "recombine", "set_standardized_data", "__setitem__", "set_bounds", "set_mutation", SETTER}
FRESH_CALLS = {"copy", "spawn_child", "sample", "_new_with_data_layer", "_layered_sample", "parameter"}


def is_fresh(t: tp.Optional[Term]) -> bool:
    if t is None:
        return False
    if t[0] == "new":
        return True
    if t[0] == "call":
        name = t[1].rsplit(".", 1)[-1]
        if name in FRESH_CALLS:
            return True
        if name in ("set_standardized_data", "add_layer", "set_bounds", "set_mutation", "set_name") and t[2] is not None:
            return is_fresh(t[2])
    return False


def frozen_test(t: Term, obj: Term) -> bool:
    """truth of t says whether obj is frozen"""
    if t[0] != "truth":
        return False
    x = t[1]
    if x == ("attr", obj, "_frozen"):
        return True
    return x[0] == "call" and x[1] == "builtins.getattr" and x[3][:2] == (obj, const("_frozen"))


def checked(p: Path, ev: Event, obj: Term) -> bool:
    """The frozen state of obj (or of the parameter it belongs to) was checked before ev on this path."""
    if any(frozen_test(t, obj) and not b for t, b in ev.cond_list()):
        return True
    for e in p.events:
        if e is ev:
            return False
        if is_call(e, "_check_frozen") and e.data["recv"] == obj:
            return True
        # a checked public modifier of the same object also checks
        if is_call(e, "mutate", "recombine", "set_standardized_data") and e.data["recv"] == obj:
            return True
    return False


def owner(base: Term) -> Term:
    """the object whose data is written: strips items and the raw attributes themselves"""
    while True:
        if base[0] == "sub":
            base = base[1]
        elif base[0] == "attr" and base[2] in RAW | {"value", "T"}:
            base = base[1]
        elif base[0] == "call" and base[1].rsplit(".", 1)[-1] in VIEWS and (base[2] is not None or base[3]):
            base = base[2] if base[2] is not None else base[3][0]
        else:
            return base


def is_data(base: Term) -> bool:
    """the array (or a view of the array) or the dictionary which holds the data of a parameter"""
    while True:
        if base[0] == "attr":
            if base[2] in RAW | {"value"}:
                return True
            if base[2] != "T":
                return False
            base = base[1]
        elif base[0] == "sub":
            base = base[1]
        elif base[0] == "call" and base[1].rsplit(".", 1)[-1] in VIEWS and (base[2] is not None or base[3]):
            base = base[2] if base[2] is not None else base[3][0]
        else:
            return False


def raw_effects(p: Path) -> tp.Iterator[tp.Tuple[Event, Term, str]]:
    """(event, object, what) for each write of raw parameter data on the path"""
    for e in p.events:
        if e.kind in ("setattr", "delattr") and e.data["name"] in RAW:
            yield e, owner(e.data["base"]), e.data["name"]
        elif e.kind in ("setitem", "delitem"):
            b = e.data["base"]
            if is_data(b):
                yield e, owner(b), "item of the data"
        elif e.kind == "aug":
            b = e.data["old"]
            if is_data(b) and not is_const(e.data["value"]) or b[0] == "attr" and b[2] == "_value":
                yield e, owner(b), "data in place"
        elif e.kind == "call" and e.data["recv"] is not None:
            b = e.data["recv"]
            if is_data(b) and short(e) in Interp.MUTATORS | {"fill", "put", "itemset", "partition", "resize"}:
                yield e, owner(b), f"{short(e)}() on the data"


def internal_calls(p: Path) -> tp.Iterator[tp.Tuple[Event, Term, str]]:
    for e in p.events:
        if e.kind == "call" and short(e) in INTERNAL and e.data["recv"] is not None:
            yield e, e.data["recv"], short(e) + "()"


def is_helper(fn: FuncInfo) -> bool:
    return fn.name.startswith("_") and not fn.name.startswith(("__", "_layered_", "_internal_")) and fn.name not in Pol.opaque


def call_sites(project: Project) -> tp.Dict[str, tp.List[FuncInfo]]:
    out: tp.Dict[str, tp.List[FuncInfo]] = {}
    for f in project.functions("nevergrad"):
        for n in walk_local(f.node):
            if isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if name is not None and f not in out.setdefault(name, []) and f.name != name:
                    out[name].append(f)
    return out


def syntactic_effects(fn: FuncInfo) -> tp.Iterator[tp.Tuple[ast.AST, ast.expr, str]]:
    for n in walk_local(fn.node):
        if isinstance(n, ast.Attribute) and n.attr in RAW:
            par = getattr(n, "_nv_parent", None)
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                yield n, n.value, n.attr
            elif isinstance(par, ast.Subscript) and par.value is n and isinstance(par.ctx, (ast.Store, ast.Del)):
                yield n, n.value, "item of the data"
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in INTERNAL:
            yield n, n.func.value, n.func.attr + "()"


def always_fresh(fn: FuncInfo, base: ast.expr) -> bool:
    if isinstance(base, ast.Call) and isinstance(base.func, ast.Attribute):
        return base.func.attr in FRESH_CALLS or (base.func.attr == "set_standardized_data" and always_fresh(fn, base.func.value))
    if isinstance(base, ast.Name):
        vals = [n.value for n in walk_local(fn.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == base.id for t in n.targets)]
        return bool(vals) and all(always_fresh(fn, v) for v in vals)
    return False


class Pol(P):
    opaque = CONTRACT | INTERNAL | {"_check_frozen", SETTER, "_layered_del_value", "_layered_get_value", "_layered_sample", "apply", "_set_random_state"}
    unroll = (0, 1)
    max_depth = 4


def check_core(ctx: Ctx) -> None:
    cls = optimizer(ctx)
    ctx.rule("ask-freezes", "every candidate returned by ask has been frozen, and not modified since", 2)
    f = cls.find_method("ask")
    pol = P(opaque=CONTRACT | {"_warn", "_constraint_solver"}, unroll=(0, 1), while_unroll=1)
    for p in ctx.paths(f, pol):
        if p.kind != "return":
            continue
        v = p.value
        last = None
        for i, e in enumerate(p.events):
            if is_call(e, "freeze") and e.data["recv"] == v:
                last = i
        ctx.check("ask-freezes", last is not None, "Optimizer.ask:freeze", f.loc(), f"the returned candidate {show(v)} is not frozen", path_note(p))
        if last is not None:
            for e in p.events[last + 1:]:
                mod = (e.kind in ("setattr", "delattr") and e.data["base"] == v) or (e.kind == "call" and e.data["recv"] == v and short(e) in PUBLIC | INTERNAL)
                ctx.check("ask-freezes", not mod, "Optimizer.ask:after", e.loc, "the candidate is modified after having been frozen", path_note(p))
    ctx.rule("tell-freezes", "tell freezes the given object before it records or hands it over", 2)
    t = cls.find_method("tell")
    given = ("param", t.params[1].arg)
    pol = P(opaque=CONTRACT | {"_warn", "_preprocess_multiobjective", "_update_archive_and_bests", "penalty"}, unroll=(0, 1), stable_attrs=frozenset(["_num_objectives", "budget"]))
    for p in ctx.paths(t, pol):
        if p.kind != "return":
            continue
        froz = [i for i, e in enumerate(p.events) if is_call(e, "freeze") and e.data["recv"] == given]
        ctx.check("tell-freezes", bool(froz), "Optimizer.tell:freeze", t.loc(), "the told candidate is not frozen", path_note(p))
        for i, e in enumerate(p.events):
            use = is_call(e, "_internal_tell_candidate", "_internal_tell_not_asked", "_update_archive_and_bests", "_preprocess_multiobjective") or (e.kind == "call" and e.data["name"] == "<value>")
            if use:
                ctx.check("tell-freezes", bool(froz) and froz[0] < i, "Optimizer.tell:order", e.loc, "the candidate is processed before being frozen", path_note(p))
    ctx.rule("init-freezes", "the parametrization of an optimizer is frozen by the constructor, and never replaced by an unfrozen one", 2)
    init = cls.methods.get("__init__")
    if init is None:
        raise AnalysisBroken("Optimizer.__init__ vanished")
    for p in ctx.paths(init, P(opaque=CONTRACT)):
        if p.kind != "return":
            continue
        par = p.heap.get((SELF, "parametrization"))
        ok = par is not None and any(is_call(e, "freeze") and e.data["recv"] in (par, attr("parametrization")) for e in p.events)
        ctx.check("init-freezes", ok, "Optimizer.__init__", init.loc(), "the parametrization is not frozen", path_note(p))
    for fn, n, name, base in attribute_writes(ctx.project, {"parametrization"}, OPT):
        bt = ctx.project.expr_type(base, fn)
        if not (isinstance(bt, ClassInfo) and (bt is cls or bt.is_subclass_of(cls))) or fn is init:
            continue
        if not isinstance(getattr(n, "ctx", None), ast.Store):
            continue
        frozen = any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "freeze" and ast.unparse(c.func.value) == ast.unparse(n) for c in walk_local(fn.node))
        ctx.check("init-freezes", frozen, f"{fn.fullname}:parametrization", fn.loc(n), "an optimizer's parametrization is replaced by one which is not frozen")


def check_freeze(ctx: Ctx) -> None:
    par = parameter(ctx)
    layered = ctx.project.cls(PARAM + "._layering", "Layered")
    ctx.rule("freeze-recursive", "freeze marks the parameter and all its sub-parameters, and nothing unfreezes", 2)
    f = par.find_method("freeze")
    if f is None or par.find_method("_check_frozen") is None:
        raise AnalysisBroken("freeze or _check_frozen vanished")
    for p in ctx.paths(f, P(opaque=frozenset(["apply"]))):
        if p.kind != "return":
            continue
        sub = any((is_call(e, "apply") and e.data["args"][:1] == (const("freeze"),)) or (is_call(e, "freeze") and e.data["recv"] != SELF) for e in p.events)
        loops = any(e.kind == "iter" for e in p.events)
        ctx.check("freeze-recursive", p.heap.get((SELF, "_frozen")) == TRUE, "Parameter.freeze:flag", f.loc(), "the frozen mark is not set", path_note(p))
        ctx.check("freeze-recursive", sub or (not loops and any(True for q in walk_local(f.node) if isinstance(q, ast.For))), "Parameter.freeze:sub-parameters", f.loc(), "sub-parameters are not frozen", path_note(p))
    for c in [par] + par.all_subclasses():
        for nm in ("freeze", "_check_frozen"):
            if c is not par and nm in c.methods:
                ctx.bad("freeze-recursive", f"{c.name}.{nm}", c.methods[nm].loc(), f"{nm} is redefined")
    for fn, n, name, base in attribute_writes(ctx.project, {"_frozen"}):
        ok = fn.name in ("__init__", "freeze") and fn.cls is par
        if not ok:
            ok = fn.name == "copy" and fn.cls is not None and fn.cls.is_subclass_of(layered)
            if ok:
                for p in ctx.paths(fn, P(opaque=CONTRACT)):
                    for e in p.events:
                        if e.kind == "setattr" and e.data["name"] == "_frozen":
                            ok = ok and is_fresh(e.data["base"])
        ctx.check("freeze-recursive", ok, f"{fn.fullname}:_frozen", fn.loc(n), "the frozen mark is changed outside of freeze, the constructor and copies")
    ctx.rule("check-raises", "the frozen check raises for every frozen parameter but constants", 1)
    g = par.find_method("_check_frozen")

    class Keep(P):
        opaque = frozenset(["apply", "random_state"])

        def keep(self, cond: Term) -> bool:
            return cond[0] == "inst" or frozen_test(cond, SELF)

    for p in ctx.paths(g, Keep()):
        if p.kind != "return":
            continue
        fr = [b for t, b in p.conds if frozen_test(t, SELF)]
        con = any(t[0] == "inst" and t[1] == SELF and str(t[2]).endswith("Constant") and b for t, b in p.conds)
        ctx.check("check-raises", con or (bool(fr) and not fr[0]), "Parameter._check_frozen", g.loc(), "a frozen parameter passes the check", path_note(p))
        sub = con or any((is_call(e, "apply") and e.data["args"][:1] == (const("_check_frozen"),)) or (is_call(e, "_check_frozen") and e.data["recv"] != SELF) or e.kind == "loopend" for e in p.events)
        ctx.check("check-raises", sub, "Parameter._check_frozen:sub-parameters", g.loc(), "a frozen sub-parameter passes the check of its container, which is then modified in part", path_note(p))


def check_modifiers(ctx: Ctx) -> None:
    par = parameter(ctx)
    layered = ctx.project.cls(PARAM + "._layering", "Layered")
    ctx.rule("modifier-checked", "each public modifier of each parameter class checks the frozen state before its first effect on that parameter", 12)
    for c in [par] + par.all_subclasses():
        if not c.module.name.startswith("nevergrad."):
            continue
        for nm in sorted(PUBLIC):
            m = c.methods.get(nm)
            if m is None:
                continue
            ctx.functions.add(m.fullname)
            n = 0
            for p in ctx.paths(m, Pol(), cls=c):
                eff = list(raw_effects(p)) + list(internal_calls(p))
                for e in p.events:  # dropping remembered values, adding layers or changing sub-parameters are effects too
                    if e.kind == "delattr" and e.data["name"] == "value":
                        eff.append((e, e.data["base"], "del value"))
                    elif nm != SETTER and is_call(e, "apply") and e.data["args"] and is_const(e.data["args"][0]) and e.data["args"][0][2] in ("mutate", "recombine"):
                        eff.append((e, SELF, "apply"))
                    elif is_call(e, "add_layer") and e.data["recv"] == SELF:
                        eff.append((e, SELF, "add_layer"))
                for e, obj, what in eff:
                    if is_fresh(obj):
                        continue
                    n += 1
                    ok = checked(p, e, obj) or checked(p, e, SELF)
                    ctx.check("modifier-checked", ok, f"{c.name}.{nm}", e.loc, f"{what} on {show(obj)} before the frozen state is checked", path_note(p))
            if not n:
                ctx.ok("modifier-checked", f"{c.name}.{nm} (delegates)")
    # setting through the value descriptor
    vp = ctx.project.cls(PARAM + "._layering", "ValueProperty")
    st = vp.find_method("__set__")
    if st is None:
        raise AnalysisBroken("ValueProperty.__set__ vanished")
    obj = ("param", st.params[1].arg)
    for p in ctx.paths(st, Pol(opaque=Pol.opaque - {SETTER} | {SETTER})):
        for e in p.events:
            if is_call(e, "_layered_del_value", SETTER):
                ctx.check("modifier-checked", checked(p, e, obj), "ValueProperty.__set__", e.loc, "a remembered value is dropped (or the value set) before the frozen state is checked", path_note(p))
    # the sub-parameters of containers are set through their own value
    ctx.rule("raw-writes", "every other write of parameter data in the package is on a fresh object, checked, or in an internal modifier", 10)
    done: tp.Set[str] = set()
    work = list(ctx.project.functions("nevergrad"))
    forced: tp.Set[str] = set()
    callers = call_sites(ctx.project)
    while work:
        fn = work.pop(0)
        names = {n.attr for n in walk_local(fn.node) if isinstance(n, ast.Attribute)}
        touch = names & RAW
        if "value" in names and fn.module.name.startswith((OPT, PARAM)) and any((isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store)) or isinstance(n, ast.AugAssign) for n in walk_local(fn.node)):
            touch = touch | {"value"}
        calls = names & INTERNAL
        if not touch and not calls and fn.fullname not in forced:
            continue
        if fn.fullname in done or fn.module.name.endswith(("test_core",)):
            continue
        done.add(fn.fullname)
        users = callers.get(fn.name, [])
        if is_helper(fn) and users and all(not u.module.name.endswith("test_core") for u in users):
            forced |= {u.fullname for u in users}  # analysed within its callers
            work += users
            continue
        inpar = fn.cls is not None and fn.cls.is_subclass_of(layered)
        if inpar and fn.name in PUBLIC and fn.cls.is_subclass_of(par):
            continue  # already decided
        if not inpar and touch and not calls and fn.fullname not in forced:
            # attributes of other classes may have the same name
            typed = [ctx.project.expr_type(n.value, fn) for n in walk_local(fn.node) if isinstance(n, ast.Attribute) and n.attr in RAW]
            if all(isinstance(t, ClassInfo) and not t.is_subclass_of(layered) for t in typed):
                continue
        if fn.fullname not in forced and not any(isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign, ast.Call)) for n in walk_local(fn.node)):
            continue
        try:
            paths = ctx.paths(fn, Pol(max_steps=20000, max_paths=2000) if not inpar else Pol(), cls=fn.cls)
        except AnalysisBroken:
            # too many paths: whatever the path, the object must be fresh
            ctx.seen(fn)
            for n, base, what in syntactic_effects(fn):
                ctx.check("raw-writes", always_fresh(fn, base), f"{fn.fullname}:{what}", fn.loc(n), f"{ast.unparse(base)}: {what} is written without a frozen check")
            continue
        for p in paths:
            for e, obj, what in raw_effects(p):
                t = obj
                ok = is_fresh(t) or (fn.name == "__init__" and t == SELF and inpar) or (inpar and fn.name in INTERNAL) or checked(p, e, t)
                ctx.check("raw-writes", ok, f"{fn.fullname}:{what}", e.loc, f"{show(obj)}: {what} is written without a frozen check", path_note(p))
            for e, obj, what in internal_calls(p):
                ok = is_fresh(obj) or (inpar and fn.name in INTERNAL) or checked(p, e, obj) or (inpar and fn.name == "_call_deeper")
                ctx.check("raw-writes", ok, f"{fn.fullname}:{what}", e.loc, f"{what} of {show(obj)} is called without a frozen check", path_note(p))


def check(ctx: Ctx) -> None:
    check_core(ctx)
    check_freeze(ctx)
    check_modifiers(ctx)
