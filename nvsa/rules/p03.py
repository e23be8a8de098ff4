"""Copies share no mutable state."""
from __future__ import annotations

from .common import *

EXPLANATION = (
    "Paths of copy (helpers and super calls inlined) for every parameter and layer class, against a table of all attributes assigned in its "
    "class hierarchy: each attribute which may hold a mutable object must be rebuilt on the copy, or be private and never modified in place "
    "anywhere in the package. Layers and sub-parameters of the copy are copies, identity and records are reset, cached values dropped. "
    "Everything inserted in a parameter by an operator is a fresh copy; no mutable class attribute or default argument is modified."
)
MUTABLE_ANN = {"list", "dict", "set", "deque", "ndarray", "List", "Dict", "Set", "Deque", "OrderedDict", "defaultdict", "DefaultDict", "MutableMapping", "MutableSequence", "bytearray"}
MUTABLE_CALLS = {
    "list", "dict", "set", "deque", "OrderedDict", "defaultdict", "Counter", "bytearray", "array", "zeros", "ones", "full", "empty", "arange", "linspace", "asarray", "zeros_like", "ones_like",
    "concatenate", "RandomState",
}
COPIERS = {"copy", "deepcopy", "array", "list", "dict", "set", "deque", "OrderedDict", "defaultdict", "tuple", "frozenset", "spawn_child", "new", "sorted", "uuid4"}
MAKERS = {"copy", "spawn_child", "sample", "_layered_sample", "_new_with_data_layer", "as_parameter"}


def ann_names(ann: tp.Optional[ast.expr]) -> tp.Set[str]:
    if ann is None:
        return set()
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
        try:
            ann = ast.parse(ann.value, mode="eval").body
        except SyntaxError:
            return set()
    # only the outermost container matters: Tuple[Callable[[List...]]] is immutable
    if isinstance(ann, ast.Subscript):
        outer = ann.value.attr if isinstance(ann.value, ast.Attribute) else getattr(ann.value, "id", "")
        if outer in ("Optional", "Union"):
            parts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            return set().union(*[ann_names(x) for x in parts])
        return {outer}
    if isinstance(ann, ast.BinOp):
        return ann_names(ann.left) | ann_names(ann.right)
    return {ann.attr if isinstance(ann, ast.Attribute) else getattr(ann, "id", "")}


class Attr:
    def __init__(self, name: str) -> None:
        self.name = name
        self.mutable: tp.Optional[str] = None
        self.owned = False  # built with self as argument
        self.obj: tp.Optional[ClassInfo] = None
        self.where = ""
        self.public = False


def self_name(f: FuncInfo) -> tp.Optional[str]:
    if f.cls is None or f.is_static or f.is_classmethod or not f.params:
        return None
    return f.params[0].arg


def attr_table(ctx: Ctx, c: ClassInfo, stop: ClassInfo) -> tp.Dict[str, Attr]:
    out: tp.Dict[str, Attr] = {}
    for k in c.mro:
        for f in k.methods.values():
            me = self_name(f)
            if me is None:
                continue
            for n in walk_local(f.node):
                tgts: tp.List[ast.expr] = []
                ann = None
                if isinstance(n, ast.Assign):
                    tgts = n.targets
                elif isinstance(n, ast.AnnAssign):
                    tgts, ann = [n.target], n.annotation
                for t in tgts:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        a = out.setdefault(t.attr, Attr(t.attr))
                        a.where = a.where or f.loc(n)
                        why = mutable_value(ctx, n.value, ann, f, stop)
                        if why:
                            a.mutable = a.mutable or why
                        if isinstance(n.value, ast.Call) and any(isinstance(x, ast.Name) and x.id == me for x in n.value.args + [kw.value for kw in n.value.keywords]):
                            tgt = ctx.project.call_target(n.value, f, c)
                            if isinstance(tgt, ClassInfo):
                                a.owned, a.obj = True, tgt
                        elif isinstance(n.value, ast.Call):
                            tgt = ctx.project.call_target(n.value, f, c)
                            if isinstance(tgt, ClassInfo) and not tgt.is_subclass_of(stop):
                                a.obj = tgt
    return out


def container_names(c: ClassInfo) -> tp.Set[str]:
    """attributes declared as holding the sub-parameters: their copy is decided separately"""
    out = set()
    for k in c.mro:
        for f in k.methods.values():
            for n in walk_local(f.node):
                if isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) == "Subobjects":
                    out |= {x.value for x in n.args + [kw.value for kw in n.keywords] if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    return out


def mutable_value(ctx: Ctx, v: tp.Optional[ast.expr], ann: tp.Optional[ast.expr], f: FuncInfo, stop: ClassInfo) -> str:
    names = ann_names(ann)
    if names & MUTABLE_ANN:
        return "annotated " + "/".join(sorted(names & MUTABLE_ANN))
    if v is None:
        return ""
    if isinstance(v, ast.IfExp):
        return mutable_value(ctx, v.body, None, f, stop) or mutable_value(ctx, v.orelse, None, f, stop)
    if isinstance(v, ast.BoolOp):
        return next((w for w in (mutable_value(ctx, x, None, f, stop) for x in v.values) if w), "")
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return type(v).__name__.lower()
    if isinstance(v, ast.Call):
        tgt = ctx.project.call_target(v, f, f.cls)
        if isinstance(tgt, ClassInfo):
            if tgt.is_subclass_of(stop):
                return ""  # parameters and layers are handled by the copy protocol
            return f"instance of {tgt.name}"
        name = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", "")
        if name in MUTABLE_CALLS:
            return f"{name}()"
    if isinstance(v, ast.Name):  # a constructor argument annotated as mutable
        for a in f.params:
            if a.arg == v.id and ann_names(a.annotation) & MUTABLE_ANN:
                return f"argument {v.id}"
    return ""


def is_fresh_value(t: tp.Optional[Term], p: Path) -> bool:
    if t is None:
        return False
    if t[0] in ("const", "new", "list", "dict", "set", "comp", "bin", "cmp"):
        return True
    if t[0] == "tuple":
        return True
    if t[0] == "call":
        name = t[1].rsplit(".", 1)[-1]
        if name in COPIERS:
            for k, v in t[4]:
                if k == "copy" and v == FALSE:
                    return False
            return True
    return False


def modified_in_place(project: Project, name: str, cls: ClassInfo, layered: ClassInfo) -> tp.List[tp.Tuple[FuncInfo, ast.AST]]:
    out = []
    for f, n, nm, base in attribute_writes(project, {name}):
        par = getattr(n, "_nv_parent", None)
        plain = isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)) and not isinstance(par, ast.AugAssign)
        if isinstance(n, ast.Call) or plain:
            continue
        bt = project.expr_type(base, f)
        if isinstance(bt, ClassInfo) and not (bt.is_subclass_of(layered)):
            continue
        if isinstance(bt, ClassInfo) and not (cls.is_subclass_of(bt) or bt.is_subclass_of(cls)):
            continue
        if bt is None and f.cls is not None and isinstance(base, ast.Name) and base.id == "self" and not f.cls.is_subclass_of(layered):
            continue
        out.append((f, n))
    return out


class Pol(P):
    opaque = (CONTRACT - {"copy"}) | {"items", "add_layer", "_on_layer_added", "_layered_del_value"}
    unroll = (0, 1)

    def keep(self, cond: Term) -> bool:
        return "__dict__" in repr(cond)


def exposed(ctx: Ctx, c: ClassInfo) -> tp.Set[str]:
    """attributes handed out as the value, without copy"""
    out: tp.Set[str] = set()
    m = c.find_method("_layered_get_value")
    if m is None or any(k.name == "Constant" for k in c.mro):  # the value of a constant never changes
        return out
    me = self_name(m)
    for n in walk_local(m.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == me:
            out.add(n.value.attr)
    return out


def check(ctx: Ctx) -> None:
    pr = ctx.project
    layered = pr.cls(PARAM + "._layering", "Layered")
    par = parameter(ctx)
    ctx.rule("attributes-rebuilt", "each attribute that may hold a mutable object is rebuilt on the copy, or private and never modified in place", 40)
    ctx.rule("identity-reset", "a copied parameter gets a new uid, is unfrozen, and has no loss, no algorithm metadata and no remembered value", 6)
    ctx.rule("layers-copied", "the copy has its own list of layers, made of copies of the layers", 2)
    ctx.rule("subparameters-copied", "each sub-parameter of the copy is a copy, stored in the copy's own container", 2)
    classes = [c for c in [layered] + layered.all_subclasses() if c.module.name.startswith("nevergrad.")]
    memo: tp.Dict[str, tp.List[tp.Tuple[FuncInfo, ast.AST]]] = {}
    for c in classes:
        f = c.find_method("copy")
        if f is None:
            raise AnalysisBroken("Layered.copy vanished")
        isparam = c.is_subclass_of(par)
        table = attr_table(ctx, c, layered)
        containers = container_names(c)
        for nm in exposed(ctx, c) if isparam else ():
            if nm in table:
                table[nm].mutable = table[nm].mutable or "handed out as the value"
                table[nm].public = True
        paths = [p for p in ctx.paths(f, Pol(), cls=c)]
        for p in paths:
            if p.kind != "return":
                continue
            child = p.value
            note = path_note(p)
            if child is None or child[0] != "call" or child[1].rsplit(".", 1)[-1] not in ("copy", "__new__", "deepcopy") and child[0] != "new":
                ctx.bad("attributes-rebuilt", f"{c.name}.copy:result", f.loc(), f"the copy is {show(child) if child else None}", note)
                continue
            if child[1].endswith("deepcopy"):
                ctx.ok("attributes-rebuilt", f"{c.name}.copy (deep)")
                continue
            for a in table.values():
                if a.mutable is None and not a.owned or a.name in ("_layers", "_random_state") or a.name in containers:
                    continue
                v = p.heap.get((child, a.name))
                if a.owned:
                    ok = v is not None and is_fresh_value(v, p) and not (v[0] == "call" and not any(contains(x, child) for x in v[3]))
                    ctx.check("attributes-rebuilt", ok, f"{c.name}.{a.name}", a.where or f.loc(), f"{a.name} refers to the original parameter and is not rebuilt for the copy", note)
                    continue
                sliced = v is not None and v[0] == "sub" and v[2][0] == "slice" and "array" not in a.mutable and not a.public
                if is_fresh_value(v, p) or sliced:
                    ctx.ok("attributes-rebuilt", f"{c.name}.{a.name}")
                    continue
                if a.name not in memo:
                    memo[a.name] = modified_in_place(pr, a.name, c, layered)
                mod = memo[a.name]
                private = a.name.startswith("_") or not isparam
                if a.public:
                    private = False
                ok = private and not mod
                why = f"modified in place at {mod[0][0].loc(mod[0][1])}" if mod else "public"
                ctx.check("attributes-rebuilt", ok, f"{c.name}.{a.name}", f.loc(), f"{a.name} ({a.mutable}, {why}) is shared by a parameter and its copies", note)
            # layers
            lay = p.heap.get((child, "_layers"))
            ctx.check("layers-copied", lay is not None and is_fresh_value(lay, p) and lay[0] != "call" and p.heap.get((lay, "#items"), ())[:1] == (child,), f"{c.name}.copy:list", f.loc(), "the copy keeps the original's list of layers", note)
            ctx.check("layers-copied", p.heap.get((child, "_layer_index")) == const(0), f"{c.name}.copy:index", f.loc(), "the copy is not the root of its own layers", note)
            for e in p.events:
                if is_call(e, "add_layer") and e.data["recv"] == child:
                    ctx.check("layers-copied", all(is_fresh_value(x, p) for x in e.data["args"]), f"{c.name}.copy:layer", e.loc, "a layer of the original is attached to the copy", note)
                elif e.kind == "call" and e.data["recv"] == lay and short(e) in ("append", "extend", "insert"):
                    ctx.check("layers-copied", all(is_fresh_value(x, p) or is_const(x) for x in e.data["args"]), f"{c.name}.copy:layer", e.loc, "a layer of the original is attached to the copy", note)
            looped = [e for e in p.events if e.kind == "iter" and e.data["it"] is not None and contains(e.data["it"], attr("_layers"))]
            for e in looped:
                nxt = [x for x in p.events[p.events.index(e):] if is_call(x, "add_layer", "append", "insert")]
                ctx.check("layers-copied", bool(nxt), f"{c.name}.copy:attach", e.loc, "a layer is not attached to the copy", note)
            if not isparam:
                continue
            # identity
            uid = p.heap.get((child, "uid"))
            ctx.check("identity-reset", uid is not None and "uuid" in repr(uid), f"{c.name}.copy:uid", f.loc(), "the copy keeps the uid of the original", note)
            ctx.check("identity-reset", p.heap.get((child, "_frozen")) == FALSE, f"{c.name}.copy:_frozen", f.loc(), "the copy of a frozen parameter is frozen", note)
            for nm in ("loss", "_losses"):
                ctx.check("identity-reset", p.heap.get((child, nm)) == NONE, f"{c.name}.copy:{nm}", f.loc(), f"the copy keeps {nm}", note)
            meta = p.heap.get((child, "_meta"))
            empty = meta is not None and (meta[0] == "dict" and p.heap.get((meta, "#items"), ()) == () or meta[0] == "call" and meta[1] == "builtins.dict" and not meta[3] and not meta[4])
            ctx.check("identity-reset", empty, f"{c.name}.copy:_meta", f.loc(), "the copy keeps the algorithm metadata", note)
            dels = [i for i, e in enumerate(p.events) if e.kind == "delattr" and e.data["base"] == child and e.data["name"] == "value"]
            subs = [i for i, e in enumerate(p.events) if e.kind == "setitem" or is_call(e, "add_layer")]
            ctx.check("identity-reset", bool(dels) and (not subs or dels[-1] > subs[-1]), f"{c.name}.copy:value", f.loc(), "values remembered by the layers of the original are kept by the copy", note)
            # sub-parameters
            isdict = any("attribute" in repr(t) and "__dict__" in repr(t) and b for t, b in p.conds)
            own_container = any(
                x.kind == "call" and x.data["name"] == "builtins.setattr" and len(x.data["args"]) == 3 and x.data["args"][0] == child and is_fresh_value(x.data["args"][2], p)
                or x.kind == "setattr" and x.data["base"] == child and (x.data["name"] in containers or "attribute" in str(x.data["name"])) and is_fresh_value(x.data["value"], p)
                or x.kind == "setitem" and contains(x.data["base"], child) and "attribute" in repr(x.data["idx"]) and is_fresh_value(x.data["value"], p)
                for x in p.events
            )
            ctx.check("subparameters-copied", isdict or own_container, f"{c.name}.copy:own container", f.loc(), "on a path, the copy keeps the container of sub-parameters of the original", note)
            for i, e in enumerate(p.events):
                if e.kind != "iter" or e.data["it"] is None or "_subobjects" not in repr(e.data["it"]):
                    continue
                elem = e.data["elem"]
                key, val = (elem[1] if elem[0] == "tuple" else (None, None))
                st = [x for x in p.events[i:] if x.kind == "setitem" and x.data["idx"] == key]
                good = len(st) == 1 and is_fresh_value(st[0].data["value"], p) and contains(st[0].data["value"], val)
                ctx.check("subparameters-copied", good, f"{c.name}.copy:sub", e.loc, "a sub-parameter is not replaced by its copy", note)
                if good:
                    tgt = st[0].data["base"]
                    own = contains(tgt, child) or is_fresh_value(tgt, p)
                    dyn = [t for t, b in p.conds if "attribute" in repr(t) and "__dict__" in repr(t) and not b]
                    if own and contains(tgt, child) and dyn and not is_fresh_value(tgt, p):
                        own = False  # getattr(child, attribute) is the original's container unless it is __dict__
                    ctx.check("subparameters-copied", own, f"{c.name}.copy:container", st[0].loc, "sub-parameters are stored in the container of the original", note)
                    if is_fresh_value(tgt, p):
                        put = any(x.kind == "call" and x.data["name"] == "builtins.setattr" and x.data["args"][:1] == (child,) and x.data["args"][2:] == (tgt,) or x.kind == "setattr" and x.data["base"] == child and x.data["value"] == tgt for x in p.events)
                        ctx.check("subparameters-copied", put, f"{c.name}.copy:container", st[0].loc, "the copied sub-parameters are not stored in the copy", note)
            if not any(e.kind == "iter" and e.data["it"] is not None and "_subobjects" in repr(e.data["it"]) for q in paths for e in q.events):
                ctx.bad("subparameters-copied", f"{c.name}.copy:loop", f.loc(), "sub-parameters are not copied")
    check_infos(ctx, layered, par)
    check_makers(ctx, layered, par)
    check_insertions(ctx, layered, par)
    check_defaults(ctx, layered)


def check_infos(ctx: Ctx, layered: ClassInfo, par: ClassInfo) -> None:
    """What is copied shallowly must only hold immutables."""
    ctx.rule("shallow-enough", "an object copied shallowly (function information) only holds immutable attributes", 1)
    table = attr_table(ctx, par, layered)
    for a in table.values():
        if a.obj is None or a.owned:
            continue
        sub = attr_table(ctx, a.obj, layered)
        bad = [b for b in sub.values() if b.mutable]
        ctx.check("shallow-enough", not bad, f"{a.obj.name}", a.where, f"{', '.join(b.name for b in bad)} of {a.obj.name} would be shared by copies")


def check_makers(ctx: Ctx, layered: ClassInfo, par: ClassInfo) -> None:
    ctx.rule("children-fresh", "children and samples are fresh objects, and making them does not modify the original", 4)
    for c in [par] + par.all_subclasses() + layered.all_subclasses():
        if not c.module.name.startswith("nevergrad."):
            continue
        for nm in ("spawn_child", "sample", "_layered_sample"):
            m = c.methods.get(nm)
            if m is None or c.name == "Constant":  # constants never change: they stand for their own children
                continue
            for p in ctx.paths(m, P(opaque=CONTRACT | {"_call_deeper", "_set_parenthood", "apply", "_layered_sample", "_internal_set_standardized_data", "_check_frozen"} - {nm}, unroll=(0, 1)), cls=c):
                if p.kind != "return":
                    continue
                v = p.value
                ok = v is not None and v[0] in ("call", "new") and (v[0] == "new" or v[1].rsplit(".", 1)[-1] in MAKERS | {"_call_deeper", "set_standardized_data", "<value>"})
                ctx.check("children-fresh", ok, f"{c.name}.{nm}", m.loc(), f"returns {show(v) if v else None}, which is not a new object", path_note(p))
                for e in p.events:
                    if e.kind in ("setattr", "delattr", "setitem", "delitem"):
                        root = e.data["base"]
                        while root[0] in ("attr", "sub"):
                            root = root[1]
                        ctx.check("children-fresh", root != SELF, f"{c.name}.{nm}:effect", e.loc, f"modifies {show(e.data['base'])}", path_note(p))
                    given = [e.data["value"]] if e.kind == "setitem" and e.data["base"][0] == "attr" and e.data["base"][2] == "_content" else []
                    if e.kind == "setattr" and e.data["name"] == "_content":
                        given = [x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) else x for x in p.heap.get((e.data["value"], "#items"), ())]
                    for x in given:
                        own = x[0] in ("attr", "item", "sub", "val", "elem") and contains(x, SELF)
                        ctx.check("children-fresh", not own, f"{c.name}.{nm}:sub-parameters", e.loc, f"{show(x)[:80]} itself becomes a sub-parameter of the child", path_note(p))


def check_insertions(ctx: Ctx, layered: ClassInfo, par: ClassInfo) -> None:
    ctx.rule("insertions-fresh", "layers and sub-parameters inserted in a parameter by an operator are fresh copies", 6)
    for c in layered.all_subclasses():
        if not c.module.name.startswith("nevergrad."):
            continue
        for m in c.methods.values():
            names = {n.func.attr for n in walk_local(m.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
            store = any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) for n in walk_local(m.node))
            if m.name in ("add_layer", "copy") or not ("add_layer" in names or (m.name in ("_on_layer_added", "__call__") and store)):
                continue
            if m.name == "__init__" and c.is_subclass_of(par):
                continue
            for p in ctx.paths(m, P(opaque=CONTRACT | {"_fix_legacy", "root"}, unroll=(1,), max_paths=3000), cls=c):
                for e in p.events:
                    if is_call(e, "add_layer") and e.data["args"]:
                        x = e.data["args"][0]
                        ok = is_fresh_value(x, p) or (x[0] == "call" and x[1].rsplit(".", 1)[-1] in ("<value>",)) or x[0] == "param" and x != SELF and m.name == "_new_with_layer"
                        ctx.check("insertions-fresh", ok, f"{c.name}.{m.name}:layer", e.loc, f"attaches {show(x)} itself: a second use would share it", path_note(p))
                    elif e.kind == "setitem" and "parameters" in repr(e.data["base"]) and m.name == "_on_layer_added":
                        x = e.data["value"]
                        inst = [b for t, b in e.cond_list() if t[0] == "inst" and contains(x, t[1])]
                        ok = is_fresh_value(x, p) or x[0] == "call" and x[1].rsplit(".", 1)[-1] == "as_parameter" and bool(inst) and not inst[-1]
                        ctx.check("insertions-fresh", ok, f"{c.name}.{m.name}:sub-parameter", e.loc, f"inserts {show(x)} itself in the parameter: a second use would share it", path_note(p))


def check_defaults(ctx: Ctx, layered: ClassInfo) -> None:
    ctx.rule("no-class-state", "parameters and layers keep no mutable state at class level or in default arguments", 20)
    for c in [layered] + layered.all_subclasses():
        if not c.module.name.startswith("nevergrad."):
            continue
        for name, v in c.class_attrs.items() if hasattr(c, "class_attrs") else []:
            if v is not None and isinstance(v, (ast.List, ast.Dict, ast.Set)):
                mod = modified_in_place(ctx.project, name, c, layered)
                ctx.check("no-class-state", not mod, f"{c.name}.{name}", c.module.name, "a class-level container is modified in place")
        for m in c.methods.values():
            a = m.node.args
            for arg_, d in list(zip((a.posonlyargs + a.args)[-len(a.defaults):] if a.defaults else [], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
                if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(d, ast.Call):
                    used = [n for n in walk_local(m.node) if isinstance(n, ast.Name) and n.id == arg_.arg and isinstance(getattr(n, "_nv_parent", None), (ast.Attribute, ast.Subscript, ast.Assign))]
                    ctx.check("no-class-state", not used, f"{c.name}.{m.name}:{arg_.arg}", m.loc(d), "a mutable default argument is shared by all calls")
                else:
                    ctx.ok("no-class-state")
            ctx.ok("no-class-state")
