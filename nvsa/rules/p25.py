"""Copying a benchmark function yields an equivalent, independent function."""
from __future__ import annotations

from .common import *

TECHNIQUE = "path enumeration of the copy protocol with freshness (aliasing) reasoning on the terms; class-by-class queries over every function class of the package"
EXPLANATION = (
    "On every path of ExperimentFunction.copy the result is rebuilt from all the recorded init arguments, receives every trait, the descriptors, the constraints and the bounds as objects of its own, "
    "and is compared to the original before being returned; every function class is checked for what would make the generic copy wrong: unrecorded arguments, settings written before the base "
    "initialisation resets them, functions held and not copied, init arguments or class-level objects modified in place."
)
FB = "nevergrad.functions.base"
FRESH = {"list", "dict", "set", "array", "copy", "deepcopy", "tuple"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "sort", "reverse", "add", "discard", "fill", "setdefault", "popitem", "appendleft"}


def tail(name: tp.Any) -> str:
    return str(name).rsplit(".", 1)[-1]


def fresh(t: tp.Any, events: tp.Sequence[Event]) -> bool:
    if not isinstance(t, tuple):
        return False
    if t == NONE or t[0] in ("list", "set", "dict", "const", "new", "tuple"):
        return True
    return t[0] == "call" and tail(t[1]) in FRESH


def traits(ctx: Ctx) -> tp.List[str]:
    """Public switches of a parametrization."""
    init = parameter(ctx).methods["__init__"]
    out = []
    for n in walk_local(init.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
            out += [t.attr for t in n.targets if isinstance(t, ast.Attribute) and not t.attr.startswith("_")]
    return out


def check_copy(ctx: Ctx, base: ClassInfo) -> None:
    ctx.rule("rebuilt", "the copy is a new instance built from every recorded argument, parameters being copied with a random state of their own", 3)
    ctx.rule("equivalent", "a copy is only returned after having been compared to the original", 1)
    ctx.rule("traits", "every trait of the parametrization, and the descriptors, are carried over", 6)
    ctx.rule("own-objects", "the constraints, the bounds and the function information of the copy are equal to the original's but its own objects", 3)
    f = base.methods.get("copy")
    inner = base.methods.get("_internal_copy")
    if f is None or inner is None:
        raise AnalysisBroken("ExperimentFunction lost its copy protocol")
    names = traits(ctx)
    if len(names) < 4:
        raise AnalysisBroken("traits of the parametrizations not found")
    pol = P(opaque=CONTRACT - {"copy"} | {"_internal_copy", "equivalent_to", "add_descriptors", "descriptors", "_reset_copy", "parametrization", "name"}, unroll=(0, 1), stable_attrs=frozenset(["parametrization", "descriptors", "_descriptors"]))
    n = 0
    for p in ctx.paths(f, pol, cls=base):
        if p.kind != "return":
            continue
        n += 1
        note = path_note(p)
        out = p.value
        ok = isinstance(out, tuple) and out[:1] == ("call",) and tail(out[1]) == "_internal_copy" and out[2] == SELF
        ctx.check("rebuilt", ok, "ExperimentFunction.copy:result", f.loc(), f"returns {show(out)[:80]} instead of a rebuilt instance", note)
        pout = attr("parametrization", out)
        pself = attr("parametrization")
        seen_eq = [i for i, e in enumerate(p.events) if is_call(e, "equivalent_to") and (e.data["recv"], e.data["args"]) in ((out, (SELF,)), (SELF, (out,)))]
        accepted = any(b and isinstance(t, tuple) and "equivalent_to" in show(t) for t, b in p.conds)
        ctx.check("equivalent", bool(seen_eq) and accepted, "ExperimentFunction.copy:equivalent", f.loc(), "a copy is returned although it was not found equivalent to the original", note)

        def owner(b: tp.Any) -> bool:
            """The parametrization of the copy (possibly just replaced)."""
            return b == pout or isinstance(b, tuple) and b[:1] == ("attr",) and b[1] == out and b[2] in ("parametrization", "_parametrization") or any(e.kind == "setattr" and e.data["base"] == out and e.data["name"] == "parametrization" and e.data["value"] == b for e in p.events)

        replaced = [i for i, e in enumerate(p.events) if e.kind == "setattr" and e.data["base"] == out and e.data["name"] == "parametrization"]
        for i in replaced:
            v = p.events[i].data["value"]
            ok = isinstance(v, tuple) and v[:1] == ("call",) and tail(v[1]) == "_reset_copy" and v[3] == (pself,)
            ctx.check("rebuilt", ok, "ExperimentFunction.copy:parametrization", p.events[i].loc, f"the parametrization of the copy is {show(v)[:80]}, not a copy with its own random state", note)
        named = [b for t, b in p.conds if isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "==" and "name" in show(t)]
        if False in named:
            ctx.check("rebuilt", bool(replaced), "ExperimentFunction.copy:override", f.loc(), "a parametrization which was replaced since the initialisation is not propagated", note)
        elif not named:
            ctx.check("rebuilt", bool(replaced), "ExperimentFunction.copy:override", f.loc(), "a parametrization which was replaced since the initialisation is not propagated", note)
        last = max(replaced, default=-1)
        for name in names + ["function"]:
            sets = [(i, e) for i, e in enumerate(p.events) if e.kind == "setattr" and e.data["name"] == name and owner(e.data["base"]) and i > last]
            good = sets and contains(sets[-1][1].data["value"], attr(name, pself))
            loop = any(e.kind == "call" and tail(e.data["name"]) == "setattr" for e in p.events)
            ctx.check("traits", bool(good) or (not sets and loop and name != "function"), f"ExperimentFunction.copy:{name}", f.loc(), f"the trait {name!r} of the parametrization is not carried over to the copy", note)
            if name == "function" and sets:
                ctx.check("own-objects", fresh(sets[-1][1].data["value"], p.events), "ExperimentFunction.copy:function", sets[-1][1].loc, "the function information is shared between the copy and the original", note)
        for base_t, name in ((pout, "_constraint_checkers"), (out, "multiobjective_upper_bounds")):
            sets = [(i, e) for i, e in enumerate(p.events) if e.kind == "setattr" and e.data["name"] == name and (e.data["base"] == base_t or name == "_constraint_checkers" and owner(e.data["base"])) and i > last]
            src = attr(name, pself if name == "_constraint_checkers" else SELF)
            good = sets and (deep(p, sets[-1][1].data["value"], src) or any(contains(t, src) for t, b in p.conds))
            ctx.check("traits", bool(good), f"ExperimentFunction.copy:{name}", f.loc(), f"{name} is not carried over to the copy", note)
            if sets:
                ctx.check("own-objects", fresh(sets[-1][1].data["value"], p.events), f"ExperimentFunction.copy:{name}", sets[-1][1].loc, f"{name} of the copy is the very object of the original ({show(sets[-1][1].data['value'])[:80]})", note)
        desc = [e for e in p.events if is_call(e, "add_descriptors") and e.data["recv"] == out] + [e for e in p.events if e.kind == "call" and tail(e.data["name"]) == "update" and "_descriptors" in show(e.data["recv"])]
        ctx.check("traits", bool(desc), "ExperimentFunction.copy:descriptors", f.loc(), "descriptors added after the initialisation are not carried over", note)
    if not n:
        raise AnalysisBroken("ExperimentFunction.copy never returns")
    # rebuilding
    for p in ctx.paths(inner, P(opaque=CONTRACT | {"_reset_copy"}, unroll=(1,), stable_attrs=frozenset(["_auto_init", "__class__"])), cls=base):
        if p.kind != "return":
            continue
        note = path_note(p)
        v = p.value
        made = [e for e in p.events if e.kind == "call" and e.data.get("result") == v]
        ok = bool(made) and ("__class__" in show(made[-1].data.get("callee") or "") or "__class__" in str(made[-1].data["name"]) or "__class__" in show(v) or tail(made[-1].data["name"]) == base.name)
        ctx.check("rebuilt", ok, "ExperimentFunction._internal_copy:class", inner.loc(), f"builds {show(v)[:80]}, not an instance of the class of the original", note)
        ok = bool(made) and any("_auto_init" in show(x) or deep(p, x, attr("_auto_init")) for x in list(made[-1].data["args"]) + [x for _, x in made[-1].data["kwargs"]])
        ctx.check("rebuilt", ok, "ExperimentFunction._internal_copy:arguments", inner.loc(), "the recorded arguments are not used", note)
        isparam = [b for t, b in p.conds if isinstance(t, tuple) and "Parameter" in show(t)]
        resets = [e for e in p.events if e.kind == "call" and tail(e.data["name"]) == "_reset_copy"]
        if True in isparam:
            ctx.check("rebuilt", bool(resets), "ExperimentFunction._internal_copy:parameters", inner.loc(), "a parameter given at initialisation is shared with the copy", note)
    if not any(isinstance(n, ast.Call) and tail(ast.unparse(n.func)) == "isinstance" and "Parameter" in ast.unparse(n) for n in walk_local(inner.node)):
        ctx.bad("rebuilt", "ExperimentFunction._internal_copy:parameters", inner.loc(), "parameters given at initialisation are shared with the copy")
    if any(c.ifs for n in walk_local(inner.node) if isinstance(n, (ast.DictComp, ast.ListComp, ast.GeneratorExp)) for c in n.generators):
        ctx.bad("rebuilt", "ExperimentFunction._internal_copy:filter", inner.loc(), "some recorded arguments are not used")
    for g in ctx.project.functions(FB):
        if g.name == "_reset_copy":
            for p in ctx.paths(g, P(opaque=CONTRACT | {"_set_random_state"})):
                if p.kind != "return":
                    continue
                x: Term = ("param", g.params[0].arg)
                v = p.value
                ok = isinstance(v, tuple) and v[:1] == ("call",) and tail(v[1]) in ("copy", "spawn_child", "deepcopy") and (v[2] == x or x in v[3])
                reset = [e for e in p.events if is_call(e, "_set_random_state") and e.data["recv"] == v and e.data["args"] == (NONE,)]
                reset += [e for e in p.events if e.kind == "setattr" and e.data["name"] == "random_state" and e.data["base"] == v]  # type: ignore
                ctx.check("rebuilt", ok and bool(reset), "_reset_copy", g.loc(), "the copied parameter keeps the random state of the original" if ok else f"returns {show(v)[:60]}", path_note(p))
            break
    else:
        raise AnalysisBroken("_reset_copy vanished")
    eq = base.methods.get("equivalent_to")
    if eq is None:
        raise AnalysisBroken("equivalent_to vanished")
    for p in ctx.paths(eq, P(opaque=CONTRACT | {"name", "parametrization"}, stable_attrs=frozenset(["_descriptors", "parametrization", "__class__"]))):
        if p.kind != "return" or p.value == FALSE or isinstance(p.value, tuple) and any(not b and (t == p.value or p.value[:1] == ("call",) and t in p.value[3]) for t, b in p.conds):
            continue
        said = [show(t) for t, b in p.conds if b] + [show(p.value)]
        for what in ("__class__", "_descriptors", "name"):
            ctx.check("equivalent", any(what in s for s in said), f"ExperimentFunction.equivalent_to:{what}", eq.loc(), f"functions which differ by {what} are declared equivalent", path_note(p))


def deep(p: Path, t: tp.Any, x: Term, depth: int = 4) -> bool:
    if contains(t, x):
        return True
    if depth:
        for s in subterms(t):
            if isinstance(s, tuple) and (s, "#items") in p.heap:
                for y in p.heap[(s, "#items")]:
                    if deep(p, y, x, depth - 1) if isinstance(y, tuple) else False:
                        return True
    return False


def check_new(ctx: Ctx, base: ClassInfo) -> None:
    ctx.rule("recorded", "every init argument is recorded, defaults included", 2)
    f = base.methods.get("__new__")
    if f is None:
        raise AnalysisBroken("ExperimentFunction.__new__ vanished")
    n = 0
    for p in ctx.paths(f, P(unroll=(0, 1))):
        if p.kind != "return":
            continue
        note = path_note(p)
        bind = [e for e in p.events if e.kind == "call" and tail(e.data["name"]) in ("bind", "bind_partial") and not e.data.get("raised")]
        caught = [e for e in p.events if e.kind == "caught"]
        if caught or not bind:
            continue
        n += 1
        b = bind[-1].data["result"]
        star = [x for x in bind[-1].data["args"] if isinstance(x, tuple) and x[0] == "star"] or len(bind[-1].data["args"]) > 1
        ctx.check("recorded", bool(star) and bool(bind[-1].data["kwargs"]), "ExperimentFunction.__new__:bind", bind[-1].loc, "some arguments are not bound", note)
        dflt = [i for i, e in enumerate(p.events) if is_call(e, "apply_defaults") and e.data["recv"] == b]
        sets = [(i, e) for i, e in enumerate(p.events) if e.kind == "setattr" and e.data["name"] == "_auto_init" and e.data["base"] == p.value]
        ctx.check("recorded", bool(sets), "ExperimentFunction.__new__:stored", f.loc(), "the arguments are not recorded", note)
        reads = [i for i, e in enumerate(p.events) if e.kind == "call" and tail(e.data["name"]) in ("dict", "OrderedDict", "copy") and e.data["args"] and contains(e.data["args"][0], ("attr", b, "arguments"))]
        ctx.check("recorded", bool(dflt) and (not reads or min(dflt) < max(reads)), "ExperimentFunction.__new__:defaults", f.loc(), "the default values of the arguments which were not provided are not recorded", note)
        rec = sets[-1][1].data["value"] if sets else None
        for e in p.events:
            dropped = None
            if e.kind == "call" and tail(e.data["name"]) == "pop" and e.data["recv"] == rec:
                dropped = e.data["args"][0]
            elif e.kind == "delitem" and e.data["base"] == rec:
                dropped = e.data["idx"]
            if dropped is not None:
                ctx.check("recorded", dropped == const("self"), "ExperimentFunction.__new__:dropped", e.loc, f"the argument {show(dropped)} is not recorded", note)
    if not n:
        raise AnalysisBroken("no path of ExperimentFunction.__new__ records the arguments")


def super_init(f: FuncInfo) -> tp.List[ast.Call]:
    return [n for n in walk_local(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and ("super()" in ast.unparse(n.func.value) or (n.args and ast.unparse(n.args[0]) == "self"))]


def check_classes(ctx: Ctx, base: ClassInfo) -> None:
    ctx.rule("recordable", "the init arguments of a function class can be given back one by one", 30)
    ctx.rule("not-reset", "no setting is written before the base initialisation which resets it", 30)
    ctx.rule("held-functions", "a function held by another one is copied with it", 2)
    ctx.rule("arguments-intact", "objects received at initialisation, which the copies receive too, are not modified in place", 30)
    ctx.rule("class-state", "no object held by the class is modified through the instances", 30)
    binit = base.methods["__init__"]
    reset = {t.attr for n in walk_local(binit.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Attribute) and ast.unparse(t.value) == "self" and not t.attr.startswith("__")} | {"_parametrization"}
    setter_attrs = {"parametrization"}
    subs = [c for c in base.all_subclasses() if c.module.name.startswith("nevergrad.")]
    if len(subs) < 25:
        raise AnalysisBroken(f"only {len(subs)} function classes found")
    names = {base.name} | {c.name for c in subs}
    for c in subs:
        init = c.methods.get("__init__")
        own_copy = c.methods.get("_internal_copy")
        if "__new__" in c.methods:
            m = c.methods["__new__"]
            ctx.check("recordable", any("super()" in ast.unparse(n) for n in walk_local(m.node) if isinstance(n, ast.Call)), f"{c.name}.__new__", m.loc(), "the init arguments are not recorded any more")
        if "copy" in c.methods:
            m = c.methods["copy"]
            ctx.check("recordable", any(isinstance(n, ast.Call) and ast.unparse(n.func) == "super().copy" for n in walk_local(m.node)), f"{c.name}.copy", m.loc(), "the generic copy (traits, constraints, bounds, comparison) is bypassed")
        if init is None:
            ctx.ok("recordable", c.name)
            continue
        a = init.node.args  # type: ignore
        odd = [x.arg for x in (a.vararg, a.kwarg) if x is not None] + [x.arg for x in a.posonlyargs if x.arg != "self"]
        ctx.check("recordable", not odd or own_copy is not None, f"{c.name}.__init__", init.loc(), f"arguments {', '.join(odd)} cannot be given back by name by the generic copy")
        # settings lost
        calls = super_init(init)
        ctx.seen(init)
        first = min((n.lineno for n in calls), default=None)
        for n in walk_local(init.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and ast.unparse(n.value) == "self" and n.attr in (reset - setter_attrs) and n.attr not in ("_auto_init", "_descriptors"):
                ctx.check("not-reset", first is not None and n.lineno > first, f"{c.name}.__init__:{n.attr}", init.loc(n), f"{n.attr} is written before the base initialisation, which resets it")
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and ast.unparse(n.value) == "self" and n.attr == "parametrization" and first is not None and n.lineno < first:
                ctx.bad("not-reset", f"{c.name}.__init__:{n.attr}", init.loc(n), f"{n.attr} is written before the base initialisation, which resets it")
        ctx.check("not-reset", first is not None, f"{c.name}.__init__:super", init.loc(), "the base class is not initialised")
        for m in c.methods.values():
            for n in walk_local(m.node):
                if isinstance(n, ast.Attribute) and n.attr == "_auto_init" and (isinstance(n.ctx, (ast.Store, ast.Del)) or modified(n)):
                    ctx.bad("recordable", f"{c.name}.{m.name}:_auto_init", m.loc(n), "the record of the init arguments is modified")
        # functions held
        params = {x.arg: ast.unparse(x.annotation) if x.annotation is not None else "" for x in init.params[1:]}
        held = [x for x, ann in params.items() if any(tail(w) in names for w in words(ann))]
        if held:
            ok = own_copy is not None or kept_as_copies(init, held)
            ctx.check("held-functions", ok, f"{c.name}", init.loc(), f"the functions {', '.join(held)} are shared with the copy")
            if own_copy is not None:
                check_own_copy(ctx, c, own_copy, init, held)
        elif own_copy is not None:
            check_own_copy(ctx, c, own_copy, init, [])
        # arguments modified in place
        alias: tp.Dict[str, str] = {}
        for n in walk_local(init.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in params and not reassigned(init, n.value.id, n.lineno):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and ast.unparse(t.value) == "self":
                        alias[t.attr] = n.value.id
        bad = []
        for m in c.methods.values():
            for n in walk_local(m.node):
                src = ast.unparse(n) if isinstance(n, (ast.Attribute, ast.Name)) else ""
                what = None
                if isinstance(n, ast.Attribute) and ast.unparse(n.value) == "self" and n.attr in alias:
                    what = alias[n.attr]
                elif isinstance(n, ast.Name) and m is init and n.id in params and not reassigned(init, n.id, n.lineno):
                    what = n.id
                if what is None or is_scalar(params[what]):
                    continue
                if modified(n):
                    bad.append((m, n, src, what))
        for m, n, src, what in bad:
            ctx.bad("arguments-intact", f"{c.name}.{m.name}:{what}", m.loc(n), f"{src} is modified in place although the copies of the function receive the same object")
        if not bad:
            ctx.ok("arguments-intact", c.name)
    # class level objects
    for c in [base] + subs:
        shared = set()
        for st in c.node.body:
            for t, v in ((t, st.value) for t in (st.targets if isinstance(st, ast.Assign) else [st.target])) if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None else ():
                if isinstance(t, ast.Name) and (isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(v, ast.Call) and tail(ast.unparse(v.func)) in ("list", "dict", "set", "zeros", "array", "ones", "defaultdict", "OrderedDict")):
                    shared.add(t.id)
        bad2 = False
        for m in c.methods.values():
            rebound = {n.attr for k in c.methods.values() if k.name == "__init__" for n in walk_local(k.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and ast.unparse(n.value) == "self"}
            for n in walk_local(m.node):
                if isinstance(n, ast.Attribute) and n.attr in shared and n.attr not in rebound and ast.unparse(n.value) in ("self", "cls", c.name, "self.__class__", "type(self)") and modified(n):
                    ctx.bad("class-state", f"{c.name}.{m.name}:{n.attr}", m.loc(n), f"{n.attr} is shared by all the instances of the class, and modified")
                    bad2 = True
        if not bad2:
            ctx.ok("class-state", c.name)


def words(ann: str) -> tp.List[str]:
    import re

    return re.findall(r"[\w.]+", ann)


def is_scalar(ann: str) -> bool:
    w = {tail(x) for x in words(ann)} - {"Optional", "Union", "None", "tp"}
    return bool(w) and w <= {"int", "float", "str", "bool", "Tuple", "tuple", "Callable", "Any"} and "Any" not in w


def modified(n: ast.AST) -> bool:
    """n is modified in place."""
    parent = getattr(n, "_nv_parent", None)
    if isinstance(parent, ast.Subscript) and parent.value is n and isinstance(parent.ctx, (ast.Store, ast.Del)):
        return True
    if isinstance(parent, ast.Attribute) and parent.value is n and parent.attr in MUTATORS:
        gp = getattr(parent, "_nv_parent", None)
        return isinstance(gp, ast.Call) and gp.func is parent
    return isinstance(parent, ast.AugAssign) and parent.target is n


def reassigned(f: FuncInfo, name: str, line: int) -> bool:
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and n.lineno < line for n in walk_local(f.node))


def kept_as_copies(init: FuncInfo, held: tp.List[str]) -> bool:
    """Each use of the held functions is through copy()."""
    for n in walk_local(init.node):
        if isinstance(n, ast.Name) and n.id in held and isinstance(n.ctx, ast.Load):
            parent = getattr(n, "_nv_parent", None)
            if not (isinstance(parent, ast.Attribute) and parent.attr == "copy") and not isinstance(parent, (ast.Assert, ast.Compare)) and not (isinstance(parent, ast.Call) and ast.unparse(parent.func) == "isinstance"):
                return False
    return True


def check_own_copy(ctx: Ctx, c: ClassInfo, m: FuncInfo, init: FuncInfo, held: tp.List[str]) -> None:
    """An overridden _internal_copy gives all the arguments, the functions held being copied."""
    params = [x.arg for x in init.params[1:]]
    for p in ctx.paths(m, P(opaque=CONTRACT, unroll=(1,), stable_attrs=frozenset(["_auto_init", "__class__", "_experiments", "_experiment", "_evaluation"])), cls=c):
        if p.kind != "return":
            continue
        note = path_note(p)
        made = [e for e in p.events if e.kind == "call" and e.data.get("result") == p.value]
        if not made:
            ctx.bad("held-functions", f"{c.name}._internal_copy", m.loc(), f"returns {show(p.value)[:60]}, which is not a new instance", note)
            continue
        e = made[-1]
        given = dict(zip(params, e.data["args"]))
        rest = [v for k, v in e.data["kwargs"] if k in (None, "**")] + [x for x in e.data["args"] if isinstance(x, tuple) and x[0] == "star"]
        given.update({k: v for k, v in e.data["kwargs"] if k not in (None, "**")})
        over: tp.Dict[str, tp.Any] = {}
        for x in rest:
            base_t = x[1] if isinstance(x, tuple) and x[0] == "star" else x
            for y in [e2 for e2 in p.events if e2.kind == "call" and tail(e2.data["name"]) == "update" and e2.data["recv"] == base_t]:
                over.update({k: v for k, v in y.data["kwargs"]})
            for y in [e2 for e2 in p.events if e2.kind == "setitem" and e2.data["base"] == base_t]:
                if is_const(y.data["idx"]):
                    over[y.data["idx"][2]] = y.data["value"]
            items = p.heap.get((base_t, "#items"))
            for kv in items or ():
                if isinstance(kv, tuple) and len(kv) == 2 and isinstance(kv[0], tuple) and is_const(kv[0]):
                    over[kv[0][2]] = kv[1]
        given.update(over)
        whole = any("_auto_init" in show(x) or deep(p, x, attr("_auto_init")) for x in rest)
        absent = [x for x in params if x not in given] if not whole else []
        ctx.check("held-functions", not absent, f"{c.name}._internal_copy:arguments", e.loc, f"the arguments {', '.join(absent)} are not given to the copy", note)
        for h in held:
            v = given.get(h)
            ok = v is not None and copied(p, v)
            ctx.check("held-functions", ok, f"{c.name}._internal_copy:{h}", e.loc, f"{h} is {show(v)[:60] if v else 'the recorded object'}: it is shared with the original", note)


def copied(p: Path, v: tp.Any) -> bool:
    if not isinstance(v, tuple):
        return False
    if v[0] == "rep":
        return copied(p, v[1])
    if v[0] == "call":
        return tail(v[1]) in ("copy", "deepcopy") or tail(v[1]) in ("list", "tuple") and bool(v[3]) and copied(p, v[3][0])
    items = p.heap.get((v, "#items"))
    return items is not None and all(copied(p, x) for x in items)


def check(ctx: Ctx) -> None:
    base = ctx.project.cls(FB, "ExperimentFunction")
    check_copy(ctx, base)
    check_new(ctx, base)
    check_classes(ctx, base)
