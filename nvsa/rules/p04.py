"""Reading a parameter never changes it; reads are never stale."""
from __future__ import annotations

from .common import *
from .p02 import VIEWS, is_data, owner as _owner, raw_effects

EXPLANATION = (
    "Every attribute written on a path of a value getter (of each layer and parameter class) is either a remembered result, which must be what "
    "the path returns and be dropped by the class's own _layered_del_value such that the remembering test fails afterwards, or shape information "
    "dropped wherever the content is rewritten. Every path which rewrites data clears the remembered values of that object (through value "
    "deletion over all layers) unless it is an internal writer, whose callers are held to the same rule. No getter, setter or transform modifies "
    "in place an array it received or read; a getter only writes data which it returns; random draws of getters are remembered."
)
GETTERS = {"_layered_get_value", "_internal_get_standardized_data", "get_standardized_data", "get_value_hash", "_to_reduced_space", "get_normalized_value"}
# internal writers: they do not clear by themselves, all their callers must
WRITERS = {"_layered_set_value", "_internal_set_standardized_data", "set_normalized_value"}
MODIFIERS = ("mutate", "recombine", "_layered_mutate", "_layered_recombine")
SHAPE = {"size", "shape", "ndim", "dtype", "dimension", "random_state"}
DATA_CALLS = {"_layered_get_value", "_call_deeper", "get_standardized_data", "_internal_get_standardized_data", "encode", "rand", "uniform", "normal", "_to_reduced_space"}
DATA_ATTRS = {"value", "_value", "_cache"}
IDENTITY = {"_random_state", "random_state", "_name", "uid"}
FRESH = {"copy", "spawn_child", "sample", "_new_with_data_layer"}


class Pol(P):
    opaque = CONTRACT | WRITERS | {"_check_frozen", "_call_deeper", "_layered_get_value", "_layered_sample", "_layered_del_value", "_layered_mutate", "_layered_recombine", "apply", "_set_random_state", "apply_constraint", "_get_name", "name", "forward", "backward"}
    unroll = (0, 1)
    max_depth = 4


def layered(ctx: Ctx) -> tp.List[ClassInfo]:
    base = ctx.project.cls(PARAM + "._layering", "Layered")
    return [c for c in [base] + base.all_subclasses() if c.module.name.startswith("nevergrad.") and ".test_" not in c.module.name]


def is_property(f: FuncInfo) -> bool:
    return any((isinstance(d, ast.Name) and d.id in ("property", "cached_property")) or (isinstance(d, ast.Attribute) and d.attr == "cached_property") for d in f.node.decorator_list)


def getters(c: ClassInfo) -> tp.List[FuncInfo]:
    return [m for n, m in c.methods.items() if (n in GETTERS or is_property(m)) and n not in ("random_state",)]


def owner(t: Term) -> Term:
    """parameter whose data is meant: strips layers and items"""
    t = _owner(t)
    while t[0] in ("sub", "item", "elem") or (t[0] == "attr" and t[2] == "_layers"):
        t = t[1]
        if not isinstance(t, tuple):
            break
    return t


def fresh(t: Term) -> bool:
    if t[0] == "new":
        return True
    if t[0] == "call":
        n = t[1].rsplit(".", 1)[-1]
        return n in FRESH or (n in ("set_standardized_data", "add_layer") and t[2] is not None and fresh(t[2]))
    return False


def depends_on_data(t: tp.Any, heap: tp.Dict[tp.Any, tp.Any], depth: int = 0) -> bool:
    if depth > 30 or not isinstance(t, tuple) or not t:
        return False
    if not isinstance(t[0], str):
        return any(depends_on_data(x, heap, depth + 1) for x in t)
    k = t[0]
    if k == "const" or k == "key":
        return False
    if k == "item":
        src = t[1]
        while isinstance(src, tuple) and src and src[0] == "call" and src[1].rsplit(".", 1)[-1] in ("sorted", "list", "reversed", "keys", "tuple") and (src[3] or src[2] is not None):
            src = src[2] if src[2] is not None else src[3][0]
        if isinstance(src, tuple) and src and src[0] == "dict":
            return False  # a key
    if k == "attr":
        if t[2] in SHAPE:
            return False
        return t[2] in DATA_ATTRS or depends_on_data(t[1], heap, depth + 1)
    if k == "call":
        n = t[1].rsplit(".", 1)[-1]
        if n in DATA_CALLS:
            return True
        if n in ("len", "keys", "type"):
            return False
    if k in ("list", "tuple", "set", "dict", "gen") and (t, "#items") in heap:
        return depends_on_data(heap[(t, "#items")], heap, depth + 1)
    if k == "sub" and isinstance(t[1], tuple) and t[1] and t[1][0] == "dict":
        return depends_on_data(t[1], heap, depth + 1)
    return any(depends_on_data(x, heap, depth + 1) for x in t[1:] if isinstance(x, tuple))


def subst(t: tp.Any, table: tp.Dict[Term, Term]) -> tp.Any:
    if t in table:
        return table[t]
    if isinstance(t, tuple):
        return tuple(subst(x, table) for x in t)
    return t


def falsified(cond: Term, want: bool) -> tp.Optional[bool]:
    """whether the (closed) condition has the opposite truth; None if unknown"""
    if cond[0] == "cmp" and cond[1] in ("is", "==") and is_const(cond[2]) and is_const(cond[3]):
        return (cond[2][2] == cond[3][2]) != want
    if cond[0] == "cmp" and cond[1] in ("is", "==") and any(x[0] in ("list", "dict", "set", "tuple", "new") for x in cond[2:4]) and any(is_const(x) for x in cond[2:4]):
        return want
    if cond[0] == "truth" and is_const(cond[1]):
        return bool(cond[1][2] not in (None, False, 0, "", "None", "False")) != want
    return None


def memos(ctx: Ctx, c: ClassInfo, m: FuncInfo, paths: tp.List[Path]) -> tp.Dict[str, tp.List[tp.Tuple[Path, Event]]]:
    out: tp.Dict[str, tp.List[tp.Tuple[Path, Event]]] = {}
    for p in paths:
        for e in p.events:
            name = None
            if e.kind in ("setattr", "delattr") and e.data["base"] == SELF:
                name = e.data["name"]
            elif e.kind in ("setitem", "delitem") and e.data["base"][0] == "attr" and e.data["base"][1] == SELF:
                name = e.data["base"][2]
            elif e.kind == "call" and e.data["recv"] is not None and e.data["recv"][0] == "attr" and e.data["recv"][1] == SELF and short(e) in Interp.MUTATORS:
                name = e.data["recv"][2]
            if name is not None and name not in IDENTITY:
                out.setdefault(name, []).append((p, e))
    return out


def reset_values(ctx: Ctx, c: ClassInfo) -> tp.List[tp.Dict[str, Term]]:
    """attributes reset by _layered_del_value of this class, for each of its paths"""
    d = c.find_method("_layered_del_value")
    if d is None:
        return []
    out: tp.List[tp.Dict[str, Term]] = []
    for p in ctx.paths(d, P(opaque=frozenset(["_check_frozen"]), unroll=(0, 1)), cls=c):
        if p.kind != "return":
            continue
        vals = {k[1]: v for k, v in p.heap.items() if k[0] == SELF and v != attr(k[1])}
        for e in p.events:
            if e.kind == "call" and e.data["recv"] is not None and e.data["recv"][0] == "attr" and e.data["recv"][1] == SELF and short(e) == "clear":
                vals.setdefault(e.data["recv"][2], ("dict", -1))
        out.append(vals)
    return out


def draws(e: Event) -> bool:
    return e.kind == "call" and ((short(e) == "encode" and not any(k == "deterministic" and v == TRUE for k, v in e.data["kwargs"])) or (e.data["recv"] is not None and e.data["recv"][0] == "attr" and e.data["recv"][2] in ("random_state", "_random_state", "_rng")))


def check_memos(ctx: Ctx) -> None:
    ctx.rule("memo-dropped", "each attribute a getter remembers a result in is reset by the class's _layered_del_value so that the next read recomputes it (or, for shape information, wherever the content is rewritten)", 4)
    ctx.rule("memo-returned", "what a getter remembers is what it returns, and a remembered value is only returned under the test of its presence", 4)
    ctx.rule("no-cached-methods", "no method of a parameter or layer is cached by a decorator", 10)
    ctx.rule("getter-writes-data", "a getter only writes data whose value it returns", 2)
    ctx.rule("draws-remembered", "a getter which draws a random number remembers the returned value", 2)
    shapes: tp.Set[tp.Tuple[str, str]] = set()
    classes = layered(ctx)
    for c in classes:
        for m in c.methods.values():
            deco = [ast.unparse(d) for d in m.node.decorator_list]
            ctx.check("no-cached-methods", not any("cache" in d for d in deco), f"{c.name}.{m.name}", m.loc(), f"decorated by {deco}: the result survives changes of the data")
        for m in getters(c):
            paths = ctx.paths(m, Pol(opaque=Pol.opaque - {m.name}), cls=c)
            users = [d for d in classes if d is c or (d.is_subclass_of(c) and d.find_method(m.name) is m)]
            for name, evs in memos(ctx, c, m, paths).items():
                where = evs[0][1].loc
                cons = f"{c.name}.{m.name}:{name}"
                if name == "_value" or name == "value":
                    continue  # data: decided below
                stored = [(p, p.heap.get((SELF, name))) for p, _ in evs]
                if all(v is not None and is_const(v) for _, v in stored):
                    continue  # a flag
                tainted = any(v is None or v == attr(name) or depends_on_data(v, p.heap) for p, v in stored)
                if not tainted:
                    if m.name == "dimension":
                        dimension_memo(ctx, c, m, users, cons, where)
                    else:
                        shapes.add((name, cons))
                    continue
                if m.name == "dimension":
                    dimension_memo(ctx, c, m, users, cons, where)
                    continue
                for p, e in evs:
                    v = p.heap.get((SELF, name))
                    if e.kind == "setattr" and p.kind == "return" and not is_const(v or NONE):
                        ctx.check("memo-returned", p.value == v or contains(p.value, v), cons, e.loc, f"{show(v)[:120]} is remembered but {show(p.value)[:120]} is returned", path_note(p))
                hits = [p for p in paths if p.kind == "return" and contains(p.value, attr(name)) and (SELF, name) not in p.heap]
                for d in users:
                    resets = reset_values(ctx, d)
                    for vals in resets or [{}]:
                        for p in hits or [None]:
                            res = [] if p is None else [falsified(subst(t, {attr(k): v for k, v in vals.items()}), b) for t, b in p.conds if any(contains(t, attr(k)) for k in vals)]
                            if any(r is True for r in res):
                                ctx.ok("memo-dropped", f"{d.name}:{name}")
                                continue
                            # no test which is known to fail afterwards: the memory itself must be emptied
                            ok = name in vals and (p is None or not res or all(r is None for r in res)) and not (p is not None and not res)
                            ctx.check("memo-dropped", ok, f"{d.name}:{name}", where, f"{name}, remembered by {m.name}, survives {d.name}._layered_del_value", path_note(p) if p is not None else "")
            # data written by the getter
            for p in paths:
                if p.kind != "return":
                    continue
                for e in p.events:
                    v = None
                    ref = None
                    if e.kind == "setattr" and e.data["name"] in ("_value", "value"):
                        v = e.data["value"]
                    elif e.kind == "call" and short(e) in ("_layered_set_value", "set_normalized_value") and e.data["recv"] is not None and not fresh(owner(e.data["recv"])):
                        v = arg(e, 0, "value")
                    elif e.kind == "call" and short(e) == "_call_deeper" and arg(e, 0, "name") == const("_layered_set_value"):
                        v = arg(e, 1, "value")
                    elif e.kind == "call" and short(e) in ("set_standardized_data", "_internal_set_standardized_data") and e.data["recv"] is not None and not fresh(e.data["recv"]):
                        ref = arg(e, 1, "reference")
                        z = arg(e, 0, "data")
                        ok = ref is not None and p.value in (("attr", ref, "value"),) and z is not None and z[0] == "call" and z[1].endswith("zeros")
                        ctx.check("getter-writes-data", ok, f"{c.name}.{m.name}", e.loc, "the data is rewritten by a read, with something else than the returned value", path_note(p))
                        continue
                    elif e.kind == "call" and short(e) in ("mutate", "recombine", "_layered_mutate", "_layered_recombine") and e.data["recv"] is not None and not fresh(owner(e.data["recv"])):
                        ctx.bad("getter-writes-data", f"{c.name}.{m.name}", e.loc, "a read modifies the parameter", path_note(p))
                        continue
                    if v is not None:
                        if v[0] == "call" and v[1].rsplit(".", 1)[-1] == "forward" and contains(p.value, v):
                            ctx.check("getter-writes-data", projecting(ctx, c, m, v), f"{c.name}.{m.name}:projection", e.loc, "a read replaces the data by its image although applying the transform to it again gives another value", path_note(p))
                        ctx.check("getter-writes-data", p.value == v, f"{c.name}.{m.name}", e.loc, f"the data is rewritten by a read with {show(v)[:120]} while {show(p.value)[:120]} is returned", path_note(p))
            if m.name == "_layered_get_value":
                for p in paths:
                    if p.kind != "return":
                        continue
                    for e in p.events:
                        if draws(e):
                            ok = any(k[0] == SELF and isinstance(k[1], str) and k[1] not in IDENTITY and v == p.value for k, v in p.heap.items())
                            ctx.check("draws-remembered", ok, f"{c.name}.{m.name}", e.loc, "a random draw decides the value, which is not remembered: two reads differ", path_note(p))
    # setters may preload a remembered value, but only with the value being set
    for c in classes:
        m = c.methods.get("_layered_set_value")
        if m is None:
            continue
        given = ("param", m.params[1].arg)
        g = c.find_method("_layered_get_value")
        known = {n for n in memos(ctx, c, g, ctx.paths(g, Pol(opaque=Pol.opaque - {g.name}), cls=c))} if g is not None else set()
        drawn = g is not None and c.methods.get("_layered_get_value") is g and any(draws(e) for p in ctx.paths(g, Pol(opaque=Pol.opaque - {g.name}), cls=c) for e in p.events)
        for p in ctx.paths(m, Pol(opaque=Pol.opaque - {m.name}), cls=c):
            if p.kind != "return":
                continue
            if drawn:
                ok = any(contains(p.heap.get((SELF, n), NONE), given) for n in known)
                ctx.check("draws-remembered", ok, f"{c.name}._layered_set_value:preset", m.loc(), "the value which is set is not remembered: the next read draws another one", path_note(p))
            for n in known - {"_value"}:
                v = p.heap.get((SELF, n))
                if v is not None:
                    ctx.check("memo-returned", v in (NONE, given), f"{c.name}._layered_set_value:{n}", m.loc(), f"the remembered value is preset to {show(v)} instead of the value which is set", path_note(p))
    # shape information: every rewriting of the content drops it
    names = {n for n, _ in shapes}
    for n in sorted(names):
        found = 0
        for fn, node, _, base in attribute_writes(ctx.project, {"_content"}):
            if fn.name == "__init__" or not (fn.cls is None or fn.cls in classes):
                continue
            if fn.name == "copy":
                continue
            for p in ctx.paths(fn, Pol(opaque=Pol.opaque - {fn.name}, max_depth=2), cls=fn.cls):
                for e in p.events:
                    tgt = None
                    if e.kind == "setattr" and e.data["name"] == "_content":
                        tgt = e.data["base"]
                    elif e.kind in ("setitem", "delitem") and e.data["base"][0] == "attr" and e.data["base"][2] == "_content":
                        tgt = e.data["base"][1]
                    elif e.kind == "call" and e.data["recv"] is not None and e.data["recv"][0] == "attr" and e.data["recv"][2] == "_content" and short(e) in Interp.MUTATORS:
                        tgt = e.data["recv"][1]
                    if tgt is None or p.kind == "raise":
                        continue
                    found += 1
                    ok = p.heap.get((tgt, n)) == NONE or same_keys(e, p)
                    ctx.check("memo-dropped", ok, f"{fn.fullname}:{n}", e.loc, f"the content is rewritten without dropping {n}, which was computed from it", path_note(p))


class KeepPol(Pol):
    def keep(self, cond: Term) -> bool:
        return True


def projecting(ctx: Ctx, c: ClassInfo, m: FuncInfo, v: Term, p: tp.Optional[Path] = None) -> bool:
    """the transform whose result replaces the data leaves its own results unchanged: a clipping, known by its class or by the method which selects it"""
    clip = ctx.project.cls(PARAM + ".transforms", "Clipping")
    if p is None:
        paths = ctx.paths(m, KeepPol(opaque=Pol.opaque - {m.name}), cls=c)
        return all(projecting(ctx, c, m, v, q) for q in paths if any(e.kind == "call" and short(e) == "_layered_set_value" and v in e.data["args"] for e in q.events))
    for t, b in p.conds:
        if t[0] == "inst" and t[1] == v[2] and b:
            return str(t[2]).rsplit(".", 1)[-1].strip("')") == "Clipping" or "Clipping" in repr(t[2])
    names: tp.Optional[tp.Set[str]] = None
    for t, b in p.conds:
        if b and t[0] == "cmp" and t[1] == "in" and contains(t[2], SELF):
            items = p.heap.get((t[3], "#items")) or (t[3][1] if isinstance(t[3], tuple) and len(t[3]) > 1 and isinstance(t[3][1], tuple) else ())
            if items and all(is_const(x) for x in items):
                names = {x[2] for x in items}
            elif is_const(t[3]) and isinstance(t[3][2], (tuple, frozenset, set, list)):
                names = set(t[3][2])
        elif b and t[0] == "cmp" and t[1] == "==" and contains(t, SELF) and any(is_const(x) and isinstance(x[2], str) for x in t[2:4]):
            names = {x[2] for x in t[2:4] if is_const(x)}
    if names is None:  # decided by some other attribute: unknown
        return any(s[0] == "attr" and s[1] == SELF for t, _ in p.conds if not contains(t, v) for s in subterms(t))
    from .p14 import method_table

    init = c.find_method("__init__")
    table = method_table(ctx, c, init) if init is not None else {}
    return all(n in table and table[n][0] is not None and clip in table[n][0].mro for n in names)


def same_keys(e: Event, p: Path) -> bool:
    """a fresh child which gets one new element per element of the original"""
    return e.kind == "setattr" and fresh(e.data["base"]) and e.data["value"][0] == "dict" and any(
        isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and x[0][:1] == ("key",) and "_content" in show(x[0]) for x in p.heap.get((e.data["value"], "#items"), ())
    )


def dimension_memo(ctx: Ctx, c: ClassInfo, m: FuncInfo, users: tp.List[ClassInfo], cons: str, where: str) -> None:
    """a remembered dimension is only right for parameters without data"""
    par = parameter(ctx)
    for d in users:
        if d is par and not [x for x in par.all_subclasses() if x.find_method("dimension") is m]:
            continue
        for nm in ("_internal_get_standardized_data", "get_standardized_data"):
            g = d.find_method(nm)
            own = g is not None and g.cls is not par and not constant_result(ctx, g)
            ctx.check("memo-dropped", not own, f"{d.name}.dimension", where, f"the dimension of {d.name} is remembered although it has data")


def constant_result(ctx: Ctx, g: FuncInfo) -> bool:
    return all(p.kind != "return" or not depends_on_data(p.value, p.heap) for p in ctx.paths(g, Pol(opaque=Pol.opaque - {g.name})))


def clears(p: Path, ev: Event, obj: Term, before_ok: bool = True) -> bool:
    seen = False
    for e in p.events:
        if e is ev:
            seen = True
            continue
        if not before_ok and not seen:
            continue
        if e.kind == "delattr" and e.data["name"] == "value" and owner(e.data["base"]) == obj:
            return True
        if e.kind == "call" and short(e) in ("__delete__",) and obj in e.data["args"]:
            return True
        if e.kind == "call" and short(e) == "set_standardized_data" and e.data["recv"] == obj:
            return True
        if e.kind == "setattr" and e.data["name"] == "value" and owner(e.data["base"]) == obj:
            return True
    return False


def reads_value(t: tp.Any, obj: Term) -> bool:
    return contains(t, ("attr", obj, "value")) if isinstance(t, tuple) else False


def read_before(p: Path, ev: Event, obj: Term) -> bool:
    if any(reads_value(t, obj) for t, _ in ev.cond_list()):
        return True
    for e in p.events:
        for v in e.data.values():
            if reads_value(v, obj):
                return True
        if e is ev:
            return False
    return False


def check_writes(ctx: Ctx) -> None:
    ctx.rule("writes-clear", "each path which rewrites data outside of the internal writers drops the remembered values of that object", 8)
    base = ctx.project.cls(PARAM + "._layering", "Layered")
    for fn in ctx.project.functions("nevergrad"):
        if ".test_" in fn.module.name or ".benchmark" in fn.module.name:
            continue
        attrs = {n.attr for n in walk_local(fn.node) if isinstance(n, ast.Attribute)}
        if not (attrs & ({"_value"} | WRITERS)):
            continue
        inpar = fn.cls is not None and fn.cls.is_subclass_of(base)
        if inpar and (fn.name in WRITERS or fn.name in ("__init__", "_call_deeper", "copy")):
            if fn.name == "copy":
                continue
            ctx.ok("writes-clear", f"{fn.fullname} (internal)")
            continue
        if inpar and fn.name in GETTERS:
            continue  # decided by getter-writes-data
        store = any(isinstance(n, ast.Attribute) and n.attr == "_value" and (isinstance(n.ctx, (ast.Store, ast.Del)) or isinstance(getattr(n, "_nv_parent", None), ast.Subscript)) for n in walk_local(fn.node))
        if not store and not (attrs & WRITERS):
            continue
        vp = fn.cls is not None and fn.cls.name == "ValueProperty"
        if vp:
            continue
        try:
            paths = ctx.paths(fn, Pol(max_steps=20000, max_paths=2000, opaque=Pol.opaque - {fn.name}), cls=fn.cls)
        except AnalysisBroken:
            ctx.notes.append(f"{fn.fullname}: too many paths")
            continue
        for p in paths:
            if p.kind == "raise":
                continue
            effs = [(e, o) for e, o, what in raw_effects(p) if not (e.kind in ("setattr",) and e.data["name"] == "_content")]
            effs = [(e, o) for e, o in effs if "_content" not in show(e.data.get("base") or ())[:2000] or e.kind == "setattr"]
            effs += [(e, owner(e.data["recv"])) for e in p.events if e.kind == "call" and short(e) in WRITERS and e.data["recv"] is not None]
            for e, obj in effs:
                obj = owner(obj)
                t = ctx.project
                if fresh(obj):
                    ok = not read_before(p, e, obj) or clears(p, e, obj, before_ok=False)
                elif obj == SELF and not inpar:
                    continue
                else:
                    ok = clears(p, e, obj)
                ctx.check("writes-clear", ok, f"{fn.fullname}", e.loc, f"the data of {show(obj)[:80]} is rewritten without dropping its remembered values", path_note(p))
    ctx.rule("modifiers-clear", "each mutation or recombination of a parameter class drops the values remembered by its layers (directly or through a checked operation)", 4)
    par = parameter(ctx)
    for c in [par] + par.all_subclasses():
        if ".test_" in c.module.name:
            continue
        for nm in MODIFIERS:
            m = c.methods.get(nm)
            if m is None:
                continue
            for p in ctx.paths(m, Pol(opaque=(Pol.opaque | {"mutate", "recombine"}) - {nm} if nm not in ("mutate", "recombine") else Pol.opaque), cls=c):
                if p.kind != "return":
                    continue
                eff = [e for e in p.events if e.kind in ("setattr", "setitem", "aug") or (e.kind == "call" and (short(e) in WRITERS or short(e) in MODIFIERS or short(e) in ("apply", "set_standardized_data", "sample")))]
                eff = [e for e in eff if not (e.kind == "setattr" and (e.data["name"] in IDENTITY or e.data["base"][0] in ("dict", "list", "set")))]
                if not eff and not nm.startswith("_layered"):
                    continue
                cleared = any(
                    (e.kind == "delattr" and e.data["name"] == "value" and e.data["base"] == SELF)
                    or (e.kind == "call" and e.data["recv"] == SELF and short(e) == "set_standardized_data")
                    or (e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == "value")
                    or (e.kind == "call" and short(e) in ("_layered_mutate", "_layered_recombine") and owner(e.data["recv"]) == SELF)
                    or (e.kind == "call" and short(e) == "_call_deeper" and e.data["args"][:1] and e.data["args"][0][2] in ("_layered_mutate", "_layered_recombine"))
                    for e in p.events
                )
                ctx.check("modifiers-clear", cleared, f"{c.name}.{nm}", m.loc(), "sub-parameters or data are modified but the values remembered by the layers are not dropped", path_note(p))
        m = c.methods.get("__setitem__")
        if m is not None:
            for p in ctx.paths(m, Pol(), cls=c):
                if p.kind == "return":
                    ctx.check("modifiers-clear", any(e.kind == "delattr" and e.data["name"] == "value" and e.data["base"] == SELF for e in p.events), f"{c.name}.__setitem__", m.loc(), "an item is replaced but the values remembered by the layers are not dropped", path_note(p))


def check_value(ctx: Ctx) -> None:
    ctx.rule("value-descriptor", "setting the value first drops what every layer remembers, deleting it does so for every layer, reading asks the outermost layer", 3)
    vp = ctx.project.cls(PARAM + "._layering", "ValueProperty")
    pol = P(opaque=CONTRACT | {"_check_frozen", "_layered_set_value", "_layered_get_value", "_layered_del_value"}, unroll=(0, 1, 2))
    for nm in ("__set__", "__delete__"):
        m = vp.find_method(nm)
        if m is None:
            raise AnalysisBroken(f"ValueProperty.{nm} vanished")
        obj = ("param", m.params[1].arg)
        for p in ctx.paths(m, pol):
            if p.kind == "raise":
                continue
            sets = [i for i, e in enumerate(p.events) if is_call(e, "_layered_set_value")]
            end = sets[0] if sets else len(p.events)
            loops = [e for e in p.events[:end] if e.kind in ("iter", "loopend") and contains(e.data["it"], ("attr", obj, "_layers"))]
            ok = bool(loops) and not any(e.kind == "loopbreak" for e in p.events)
            for e in loops:
                if e.kind == "iter":
                    ok = ok and any(is_call(x, "_layered_del_value") and x.data["recv"] == e.data["elem"] for x in p.events[:end])
                ok = ok and not any(s[0] == "slice" for s in subterms(e.data["it"]))
            ctx.check("value-descriptor", ok, f"ValueProperty.{nm}", m.loc(), "what some layer remembers survives", path_note(p))
            if nm == "__set__":
                good = len(sets) == 1 and p.events[sets[0]].data["recv"] == ("sub", ("attr", obj, "_layers"), const(-1)) and p.events[sets[0]].data["args"] == (("param", m.params[2].arg),)
                ctx.check("value-descriptor", good, "ValueProperty.__set__:outermost", m.loc(), "the value is not set (once) through the outermost layer", path_note(p))
    g = vp.find_method("__get__")
    for p in ctx.paths(g, pol):
        if p.kind == "return":
            v = p.value
            ok = v[0] == "call" and v[1].endswith("_layered_get_value") and v[2] == ("sub", ("attr", ("param", g.params[1].arg), "_layers"), const(-1))
            ctx.check("value-descriptor", ok, "ValueProperty.__get__", g.loc(), f"reading returns {show(v)}", path_note(p))
            ctx.check("value-descriptor", not [e for e in p.events if e.kind in ("setattr", "setitem", "delattr", "aug")], "ValueProperty.__get__:pure", g.loc(), "reading writes something", path_note(p))
    par = parameter(ctx)
    ssd = par.find_method("set_standardized_data")
    for p in ctx.paths(ssd, Pol(opaque=Pol.opaque - {"set_standardized_data"})):
        for e in p.events:
            if is_call(e, "_internal_set_standardized_data"):
                i = p.events.index(e)
                ok = any(x.kind == "delattr" and x.data["name"] == "value" and x.data["base"] == e.data["recv"] for x in p.events[:i]) and e.data["recv"] == SELF
                ctx.check("value-descriptor", ok, "Parameter.set_standardized_data", e.loc, "the standardized data is set before dropping the remembered values", path_note(p))
    cp = par.find_method("copy")
    for p in ctx.paths(cp, P(opaque=CONTRACT - {"copy"}, unroll=(0, 1))):
        if p.kind == "return":
            ctx.check("value-descriptor", any(e.kind == "delattr" and e.data["name"] == "value" and e.data["base"] == p.value for e in p.events), "Parameter.copy", cp.loc(), "a copy keeps the values remembered by the original", path_note(p))


def stale_array(t: Term) -> bool:
    """an array somebody else may hold: an argument, data, or the result of a deeper layer (or a view of it)"""
    while True:
        if t[0] == "param":
            return t != SELF
        if t[0] == "attr":
            if t[2] in ("_value", "value", "losses", "_losses"):
                return True
            if t[2] in ("T", "real", "imag", "flat"):
                t = t[1]
                continue
            return False
        if t[0] in ("sub", "item", "elem"):
            t = t[1]
            if not isinstance(t, tuple):
                return False
            continue
        if t[0] == "call":
            n = t[1].rsplit(".", 1)[-1]
            if n in ("_layered_get_value", "_call_deeper", "forward", "backward"):
                return True
            if n in VIEWS or (n == "array" and any(k == "copy" and v == FALSE for k, v in t[4])):
                src = t[2] if t[2] is not None else (t[3][0] if t[3] else None)
                if src is None:
                    return False
                t = src
                continue
        return False


def check_inplace(ctx: Ctx) -> None:
    ctx.rule("no-in-place", "getters, setters, transforms and encoders never modify in place an array they received or read", 20)
    trans = ctx.project.modules.get(PARAM + ".transforms")
    todo: tp.List[tp.Tuple[FuncInfo, ClassInfo]] = []
    for c in layered(ctx):
        for n, m in c.methods.items():
            if n in GETTERS or n in WRITERS or n in ("forward", "backward", "_check", "_apply_array") or is_property(m):
                todo.append((m, c))
    for mod in (PARAM + ".transforms", PARAM + ".discretization", PARAM + ".helpers"):
        for f in ctx.project.functions(mod):
            if f.name not in ("__init__",) and f.name != "_apply_unsafe":
                todo.append((f, f.cls))
    ops = {"fill", "put", "itemset", "partition", "resize", "sort"}
    for m, c in todo:
        n = 0
        for p in ctx.paths(m, Pol(opaque=Pol.opaque - {m.name} | {"_apply_unsafe"}, max_paths=4000), cls=c):
            for e in p.events:
                tgt = None
                if e.kind == "aug":
                    tgt = e.data["old"]
                elif e.kind in ("setitem", "delitem"):
                    tgt = e.data["base"]
                elif e.kind == "call":
                    if e.data["recv"] is not None and short(e) in ops:
                        tgt = e.data["recv"]
                    for k, v in e.data["kwargs"]:
                        if k == "out":
                            tgt = v
                    if e.data["name"] in ("numpy.random.shuffle", "numpy.put", "numpy.copyto", "numpy.fill_diagonal", "numpy.place") or (short(e) == "shuffle"):
                        tgt = e.data["args"][0] if e.data["args"] else None
                if tgt is not None:
                    n += 1
                    ctx.check("no-in-place", not stale_array(tgt), f"{m.fullname}", e.loc, f"{show(tgt)[:120]} is modified in place", path_note(p))
        ctx.ok("no-in-place", m.fullname)


def check(ctx: Ctx) -> None:
    check_value(ctx)
    check_memos(ctx)
    check_writes(ctx)
    check_inplace(ctx)
