"""Nothing shared between optimizers is modified by one of them."""
from __future__ import annotations

from ..flow import Flow
from .common import *

TECHNIQUE = "flow-sensitive ownership analysis of every function (which locals and attributes denote objects shared between optimizers), with interprocedural summaries, and effect analysis on them"
EXPLANATION = (
    "In every function of the optimizers, parametrizations and common tools, each local and attribute is classified: shared with other optimizers (module variables, classes, class-level containers, factories, "
    "the options a factory hands to each optimizer it builds, default arguments) or fresh (possibly a fresh container of shared elements). No assignment, item assignment, in-place operator, mutating method, or call of a "
    "function which modifies its argument may apply to a shared object; factories do not modify themselves when they are called; nothing is registered and no process-wide setting is changed at run time."
)
MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "sort", "reverse", "add", "discard", "popleft", "appendleft", "popitem", "extendleft", "rotate", "fill", "put", "itemset",
    "resize", "__setitem__", "__delitem__", "__setattr__", "intersection_update", "difference_update", "symmetric_difference_update", "register", "register_name", "unregister", "set_name", "add_descriptors",
}
# functions which modify an argument
MODIFIES_FIRST = {"shuffle", "fill_diagonal", "copyto", "put", "place", "putmask", "heappush", "heappop", "heapify", "heapreplace", "heappushpop", "insort", "insort_left", "insort_right", "setattr", "delattr"}
ACCESS = {"get", "values", "items", "keys", "__getitem__", "pop", "setdefault", "popleft"}
FRESH = {"list", "tuple", "sorted", "set", "dict", "frozenset", "reversed", "zip", "enumerate", "iter", "filter", "deque", "OrderedDict", "copy", "chain", "islice", "array", "asarray_chkfinite"}
SAME = {"getattr", "vars", "type", "next", "asarray", "ravel", "min", "max", "weakref.proxy", "proxy", "cast"}
PROCESS = {
    "os.chdir", "os.putenv", "os.umask", "sys.setrecursionlimit", "numpy.seterr", "numpy.set_printoptions", "numpy.random.seed", "random.seed", "warnings.simplefilter", "warnings.filterwarnings",
    "warnings.resetwarnings", "torch.manual_seed", "torch.set_default_dtype", "torch.set_num_threads", "numpy.random.set_state", "random.setstate", "locale.setlocale", "logging.disable", "gc.disable", "socket.setdefaulttimeout",
}
INPLACE_TYPES = {"list", "dict", "set", "ndarray", "deque"}
Kind = tp.Tuple[int, str, str]  # depth of fresh containers, category, description


def low(kinds: tp.Iterable[tp.Optional[Kind]]) -> tp.Optional[Kind]:
    ks = [k for k in kinds if k is not None]
    return min(ks) if ks else None


def deeper(k: tp.Optional[Kind]) -> tp.Optional[Kind]:
    return None if k is None or k[0] >= 3 else (k[0] + 1, k[1], k[2])


def element(k: tp.Optional[Kind]) -> tp.Optional[Kind]:
    return None if k is None else (max(k[0] - 1, 0), k[1], k[2])


class Analysis:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx, self.project = ctx, ctx.project
        self.opt = optimizer(ctx)
        self.factory = ctx.project.cls("nevergrad.optimization.base", "ConfiguredOptimizer")
        self.attrs: tp.Dict[tp.Tuple[str, str], tp.Optional[Kind]] = {}
        self.assigned: tp.Dict[str, tp.Set[str]] = {}
        self.summaries: tp.Dict[tp.Any, tp.Any] = {}
        self.busy: tp.Set[tp.Any] = set()
        for f in ctx.project.functions("nevergrad."):
            if f.cls is None:
                continue
            for n in walk_local(f.node):
                for t in targets_of(n):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self_name(f):
                        self.assigned.setdefault(f.cls.fullname, set()).add(t.attr)

    # ---- initial kinds of the arguments
    def arguments(self, f: FuncInfo) -> tp.Dict[str, Kind]:
        out: tp.Dict[str, Kind] = {}
        a = f.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults) :], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in pairs:
            if mutable(d):
                out[x.arg] = (0, "default-arguments", f"the default value of {x.arg}")
        cls = f.cls
        if cls is not None and not isinstance(f.node, ast.Lambda):
            first = self_name(f)
            if f.is_classmethod and first:
                out[first] = (0, "class-state", "the class")
            if cls.is_subclass_of(self.opt) and f.name == "__init__":
                for x in pos[1:] + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y is not None]:
                    if x.arg in ("parametrization", "budget", "num_workers"):
                        continue
                    k = (0, "factory-options", f"the option {x.arg}")
                    if x in (a.vararg, a.kwarg):
                        k = (1, *k[1:])  # type: ignore
                    out.setdefault(x.arg, k)
            if cls.is_subclass_of(self.factory) and first and f.name not in ("__init__", "set_name", "__setstate__") and not f.is_static and not f.is_classmethod:
                out[first] = (0, "factory-options", "the factory")
        return out

    def attribute(self, cls: ClassInfo, name: str) -> tp.Optional[Kind]:
        family = list(cls.mro) + [c for c in cls.all_subclasses()]
        hits = [self.attrs.get((c.fullname, name)) for c in family]
        if any(name in self.assigned.get(c.fullname, ()) for c in family):
            return low(hits)
        own, val = cls.find_class_attr(name)
        if own is not None and val is not None and mutable(val):
            return (0, "class-state", f"{own.name}.{name} (class attribute)")
        return None

    # ---- summaries
    def returned(self, f: FuncInfo, cls: tp.Optional[ClassInfo], args: tp.Dict[str, Kind]) -> tp.Optional[Kind]:
        key = ("ret", f.fullname, cls.fullname if cls else "", tuple(sorted(args.items())))
        if key in self.summaries:
            return self.summaries[key]
        if key in self.busy or len(self.busy) > 6 or f.is_generator:
            return None
        self.busy.add(key)
        try:
            run = Run(self, f, cls, args, report=False)
            run.go()
            self.summaries[key] = out = low(run.returns)
            return out
        finally:
            self.busy.discard(key)

    def modifies(self, f: FuncInfo, name: str) -> bool:
        """The function modifies the object given for this argument."""
        key = ("mod", f.fullname, name)
        if key in self.summaries:
            return self.summaries[key]
        if key in self.busy or len(self.busy) > 6:
            return False
        self.busy.add(key)
        try:
            run = Run(self, f, f.cls, {name: (0, "argument", name)}, report=False, only=True)
            run.go()
            self.summaries[key] = out = any(k[1] == "argument" for _, k, _ in run.effects)
            return out
        finally:
            self.busy.discard(key)


def self_name(f: FuncInfo) -> tp.Optional[str]:
    if f.cls is None or f.is_static or isinstance(f.node, ast.Lambda):
        return None
    ps = f.node.args.posonlyargs + f.node.args.args
    return ps[0].arg if ps else None


def targets_of(n: ast.AST) -> tp.List[ast.expr]:
    if isinstance(n, ast.Assign):
        ts = n.targets
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.AsyncFor, ast.NamedExpr)):
        ts = [n.target]
    elif isinstance(n, (ast.With, ast.AsyncWith)):
        ts = [i.optional_vars for i in n.items if i.optional_vars is not None]
    elif isinstance(n, ast.Delete):
        ts = n.targets
    else:
        return []
    out: tp.List[ast.expr] = []
    todo = list(ts)
    while todo:
        t = todo.pop()
        if isinstance(t, (ast.Tuple, ast.List)):
            todo.extend(t.elts)
        elif isinstance(t, ast.Starred):
            todo.append(t.value)
        else:
            out.append(t)
    return out


def mutable(e: ast.expr) -> bool:
    """Its value can be modified (calls of classes included)."""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Name, ast.Attribute)):
        return True
    if isinstance(e, ast.Call):
        return ast.unparse(e.func).rsplit(".", 1)[-1] not in ("tuple", "frozenset", "TypeVar", "namedtuple", "int", "float", "str", "bool", "property")
    return False


class Run(Flow):
    """One function: a state is the kinds of its locals."""

    def __init__(self, an: Analysis, f: FuncInfo, cls: tp.Optional[ClassInfo], args: tp.Dict[str, Kind], report: bool = True, only: bool = False) -> None:
        self.an, self.f, self.cls, self.args, self.report, self.only = an, f, cls or f.cls, args, report, only
        self.effects: tp.List[tp.Tuple[ast.AST, Kind, str]] = []
        self.returns: tp.List[tp.Optional[Kind]] = []
        self.self_attrs: tp.Dict[str, tp.List[tp.Optional[Kind]]] = {}
        self.first = self_name(f)
        self.globals: tp.Set[str] = {x for n in walk_local(f.node) if isinstance(n, ast.Global) for x in n.names}

    def go(self) -> None:
        if isinstance(self.f.node, ast.Lambda):
            st = frozenset(self.args.items())
            self.scan(self.f.node.body, dict(st))
            self.returns.append(self.kind(self.f.node.body, dict(st)))
            return
        self.run(self.f.node, [frozenset(self.args.items())])

    def effect(self, n: ast.AST, k: tp.Optional[Kind], what: str) -> None:
        if k is not None and k[0] == 0 and (not self.only or k[1] == "argument"):
            self.effects.append((n, k, what))

    # ---- kinds
    def kind(self, e: tp.Optional[ast.expr], env: tp.Dict[str, Kind]) -> tp.Optional[Kind]:
        if e is None:
            return None
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.f.locals or e.id in {a.arg for a in self.f.params}:
                return None
            if self.only:
                return None
            ent = self.an.project.resolve_expr(e, self.f.module, self.f)
            return self.entity(ent, e.id)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.first and e.value.id not in env:
                if e.attr == "__class__":
                    return None if self.only else (0, "class-state", "the class of the object")
                if e.attr == "__dict__" or self.cls is None or self.only:
                    return None
                prop = self.cls.find_method(e.attr)
                if prop is not None and prop.is_property:
                    return self.an.returned(prop, self.cls, self.an.arguments(prop))
                return self.an.attribute(self.cls, e.attr)
            if e.attr == "__class__":
                return None if self.only else (0, "class-state", "the class of an object")
            if not self.only:
                ent = self.an.project.resolve_expr(e, self.f.module, self.f)
                if ent is not None:
                    return self.entity(ent, ast.unparse(e))
            b = self.kind(e.value, env)
            return b if b is not None and b[0] == 0 else None
        if isinstance(e, ast.Subscript):
            b = self.kind(e.value, env)
            if b is None:
                return None
            if isinstance(e.slice, ast.Slice):
                return b if b[0] else deeper(b)
            return element(b)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.IfExp):
            return low([self.kind(e.body, env), self.kind(e.orelse, env)])
        if isinstance(e, ast.BoolOp):
            return low([self.kind(v, env) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.kind(e.value, env)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return deeper(low([self.kind(x.value, env) if isinstance(x, ast.Starred) else self.kind(x, env) for x in e.elts]))
        if isinstance(e, ast.Dict):
            return deeper(low([self.kind(x, env) if k is not None else element(self.kind(x, env)) for k, x in zip(e.keys, e.values)]))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = self.comprehension(e.generators, env)
            return deeper(self.kind(e.value if isinstance(e, ast.DictComp) else e.elt, inner))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)):
            ks = [self.kind(e.left, env), self.kind(e.right, env)]
            k = low(ks)
            return None if k is None else (max(k[0], 1), k[1], k[2])
        if isinstance(e, ast.Starred):
            return self.kind(e.value, env)
        return None

    def comprehension(self, gens: tp.Sequence[ast.comprehension], env: tp.Dict[str, Kind]) -> tp.Dict[str, Kind]:
        inner = dict(env)
        for g in gens:
            self.bind(g.target, element(self.kind(g.iter, inner)), inner, None)
        return inner

    def entity(self, ent: tp.Any, text: str) -> tp.Optional[Kind]:
        if isinstance(ent, ClassInfo):
            return (0, "class-state", f"the class {ent.name}")
        if isinstance(ent, ModVar):
            return (0, "module-state", f"{ent.module.name}.{ent.name}")
        if isinstance(ent, (Module, FuncInfo)):
            return (0, "module-state", text)
        if isinstance(ent, External) and not ent.dotted.startswith("builtins."):
            return (0, "module-state", ent.dotted)
        return None

    def call(self, e: ast.Call, env: tp.Dict[str, Kind]) -> tp.Optional[Kind]:
        name = ast.unparse(e.func).rsplit(".", 1)[-1] if isinstance(e.func, (ast.Attribute, ast.Name)) else ""
        if name == "globals":
            return None if self.only else (0, "module-state", "the globals of the module")
        if name == "deepcopy":
            return None
        if isinstance(e.func, ast.Attribute):
            recv = self.kind(e.func.value, env)
            tgt = self.target(e)
            if isinstance(tgt, FuncInfo):
                return self.result(tgt, e, env)
            if recv is not None and recv[1] != "module-state" or recv is not None and isinstance(e.func.value, (ast.Name, ast.Attribute)) and not isinstance(self.an.project.resolve_expr(e.func.value, self.f.module, self.f), (External, Module)):
                if name in ACCESS:
                    return element(recv) if name != "items" else recv
                if name == "copy":
                    return deeper(recv) if recv and recv[0] == 0 else recv
                return None
        if name in FRESH and e.args:
            ks = low([self.kind(a, env) for a in e.args])
            return None if ks is None else ((1, *ks[1:]) if ks[0] == 0 else ks)  # type: ignore
        if name in SAME and e.args:
            k = self.kind(e.args[0], env)
            if name == "type":
                return None if self.only or len(e.args) > 1 else (0, "class-state", "the class of an object")
            if name in ("next", "min", "max"):
                return element(k)
            return k
        tgt = self.target(e)
        if isinstance(tgt, FuncInfo):
            return self.result(tgt, e, env)
        return None

    def target(self, e: ast.Call) -> tp.Any:
        if self.only:
            return None
        try:
            t = self.an.project.call_target(e, self.f, self.cls)
        except RecursionError:  # pragma: no cover
            return None
        return t

    def match(self, tgt: FuncInfo, e: ast.Call) -> tp.Iterator[tp.Tuple[str, ast.expr]]:
        a = tgt.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = tgt.cls is not None and not tgt.is_static and isinstance(e.func, ast.Attribute)
        if bound and pos:
            if not (isinstance(e.func, ast.Attribute) and isinstance(self.an.project.resolve_expr(e.func.value, self.f.module, self.f), ClassInfo) and not tgt.is_classmethod):
                yield pos[0], e.func.value  # type: ignore
                pos = pos[1:]
        for x, v in zip(pos, e.args):
            if isinstance(v, ast.Starred):
                break
            yield x, v
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k in e.keywords:
            if k.arg in names:
                yield k.arg, k.value

    def result(self, tgt: FuncInfo, e: ast.Call, env: tp.Dict[str, Kind]) -> tp.Optional[Kind]:
        if isinstance(tgt.node, ast.Lambda) or tgt.name == "__init__":
            return None
        args = dict(self.an.arguments(tgt))
        for x, v in self.match(tgt, e):
            k = self.kind(v, env)
            if k is not None and not (x == self_name(tgt) and k[1] != "factory-options"):
                args[x] = k
        cls = tgt.cls
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == self.first and self.cls is not None and tgt.cls is not None and self.cls.is_subclass_of(tgt.cls):
            cls = self.cls
        return self.an.returned(tgt, cls, args)

    # ---- effects
    def scan(self, n: ast.AST, env: tp.Dict[str, Kind]) -> None:
        """Calls with effects in an expression."""
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env = self.comprehension(n.generators, env)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.AST):
                self.scan(c, env)
        if isinstance(n, ast.NamedExpr):
            pass
        if isinstance(n, ast.Call):
            self.call_effect(n, env)

    def call_effect(self, e: ast.Call, env: tp.Dict[str, Kind]) -> None:
        name = ast.unparse(e.func).rsplit(".", 1)[-1] if isinstance(e.func, (ast.Attribute, ast.Name)) else ""
        shown = ast.unparse(e.func)[-60:]
        if isinstance(e.func, ast.Attribute) and name in MUTATORS:
            recv = self.kind(e.func.value, env)
            ent = None if self.only else self.an.project.resolve_expr(e.func.value, self.f.module, self.f)
            if not isinstance(ent, (External, Module, ClassInfo, FuncInfo)) and not (name in ("set_name", "register_name", "register") and self.f.name == "set_name") and not (name in ("append", "extend", "insert") and self.completes(e.func.value, e)):
                if not (name == "set_name" and recv is None):
                    self.effect(e, recv, f"{shown}()")
        if name in MODIFIES_FIRST and e.args:
            self.effect(e, self.kind(e.args[0], env), f"{shown}({ast.unparse(e.args[0])[:40]}, ...)")
        for k in e.keywords:
            if k.arg == "out":
                self.effect(e, self.kind(k.value, env), f"{shown}(out=...)")
        if name in ("register_name",) or name == "set_name" and any(k.arg == "register" and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in e.keywords):
            own = isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == self.first
            if self.f.name != "set_name" and not own and not self.only:
                self.effects.append((e, (0, "registration", "the registry"), f"{shown}()"))
        tgt = self.target(e) if not self.only else self.light_target(e)
        if isinstance(tgt, ClassInfo):
            tgt = tgt.find_method("__init__")
            skip = True
        else:
            skip = False
        if isinstance(tgt, FuncInfo) and not isinstance(tgt.node, ast.Lambda) and tgt.fullname != self.f.fullname:
            pairs = list(self.match(tgt, e))
            if skip and tgt.name == "__init__" and isinstance(e.func, ast.Attribute):  # module.Class(...)
                pairs = pairs[1:] if pairs and pairs[0][1] is e.func.value else pairs
                a = [x.arg for x in tgt.node.args.posonlyargs + tgt.node.args.args][1:]
                pairs = list(zip(a, [v for v in e.args if not isinstance(v, ast.Starred)])) + [(k.arg, k.value) for k in e.keywords if k.arg]
            elif skip:
                a = [x.arg for x in tgt.node.args.posonlyargs + tgt.node.args.args][1:]
                pairs = list(zip(a, [v for v in e.args if not isinstance(v, ast.Starred)])) + [(k.arg, k.value) for k in e.keywords if k.arg]
            for x, v in pairs:
                k = self.kind(v, env)
                if k is None or k[0] != 0 or self.only and k[1] != "argument":
                    continue
                if self.f.name == "set_name" and k[1] == "module-state":
                    continue
                if x == self_name(tgt) and (tgt.is_classmethod or tgt.name == "set_name" or k[1] in ("class-state", "module-state") and isinstance(self.an.project.resolve_expr(v, self.f.module, self.f), (ClassInfo, Module, External))):
                    continue
                if self.an.modifies(tgt, x):
                    self.effect(e, k, f"{tgt.qualname}, which modifies its argument {x}")
        if not self.only:
            ent = self.an.project.resolve_expr(e.func, self.f.module, self.f)
            if isinstance(ent, External) and ent.dotted in PROCESS and not contained(e):
                self.effects.append((e, (0, "process-state", ent.dotted), f"{shown}()"))

    def light_target(self, e: ast.Call) -> tp.Any:
        ent = self.an.project.resolve_expr(e.func, self.f.module, self.f) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
        if isinstance(ent, (FuncInfo, ClassInfo)):
            return ent
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == self.first and self.cls is not None:
            return self.cls.find_method(e.func.attr)
        return None

    def store(self, t: ast.expr, k: tp.Optional[Kind], env: tp.Dict[str, Kind], n: ast.AST) -> None:
        if isinstance(t, ast.Attribute):
            base = self.kind(t.value, env)
            if isinstance(t.value, ast.Name) and t.value.id == self.first and t.value.id not in env:
                self.self_attrs.setdefault(t.attr, []).append(k)
            else:
                self.effect(n, base, f"{ast.unparse(t)} is assigned")
        elif isinstance(t, ast.Subscript):
            self.effect(n, self.kind(t.value, env), f"{ast.unparse(t)[:60]} is assigned")
        elif isinstance(t, ast.Name):
            if t.id in self.globals and not self.only:
                self.effects.append((n, (0, "module-state", f"{self.f.module.name}.{t.id}"), f"the global {t.id} is assigned"))
            elif k is None:
                env.pop(t.id, None)
            else:
                env[t.id] = k

    def bind(self, t: ast.expr, k: tp.Optional[Kind], env: tp.Dict[str, Kind], n: tp.Optional[ast.AST]) -> None:
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, element(k), env, n)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, deeper(k), env, n)
        elif n is None:
            if isinstance(t, ast.Name):
                env.pop(t.id, None) if k is None else env.__setitem__(t.id, k)
        else:
            self.store(t, k, env, n)

    def inplace(self, t: ast.expr, v: ast.expr, env: tp.Dict[str, Kind]) -> bool:
        """The in-place operator modifies the object rather than rebinding the name."""
        if isinstance(v, (ast.List, ast.ListComp, ast.Dict, ast.Set)):
            return True
        if isinstance(t, ast.Name):
            for a in self.f.params:
                if a.arg == t.id and a.annotation is not None:
                    text = ast.unparse(a.annotation)
                    return any(x in text for x in ("List", "list", "ndarray", "Dict", "dict", "Set", "Deque", "ArrayLike", "Sequence"))
        ty = self.an.project.expr_type(t, self.f, self.cls)
        if isinstance(ty, tuple) and ty and ty[0] in ("list", "dict", "set"):
            return True
        return isinstance(ty, External) and ty.dotted.rsplit(".", 1)[-1] in INPLACE_TYPES

    def completes(self, t: ast.expr, n: tp.Any) -> bool:
        """Extends a list while it is too short, when the length of the lists given was checked before."""
        text = f"len({ast.unparse(t)})"
        checked = any(
            isinstance(x, ast.Assert) and x.lineno < n.lineno and any(isinstance(c, ast.Compare) and isinstance(c.ops[0], ast.Eq) and text in (ast.unparse(c.left), ast.unparse(c.comparators[0])) for c in ast.walk(x.test))
            for x in walk_local(self.f.node)
        )
        while checked and getattr(n, "_nv_parent", None) is not None and n is not self.f.node:
            child, n = n, n._nv_parent
            if isinstance(n, (ast.If, ast.While)) and child in n.body and any(isinstance(c, ast.Compare) and text in [ast.unparse(c.left)] + [ast.unparse(y) for y in c.comparators] for c in ast.walk(n.test)):
                return True
        return False

    def raises(self, node: ast.AST) -> bool:
        return isinstance(node, (ast.stmt, ast.withitem))

    def transfer(self, node: ast.AST, state: tp.Any) -> tp.Iterable[tp.Any]:
        env: tp.Dict[str, Kind] = dict(state)
        self.step(node, env)
        return (frozenset(env.items()),)

    def step(self, n: ast.AST, env: tp.Dict[str, Kind]) -> None:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            env.pop(n.name, None)
            return
        if isinstance(n, ast.expr) and isinstance(getattr(n, "_nv_parent", None), (ast.For, ast.AsyncFor)) and n._nv_parent.target is n:  # type: ignore
            self.bind(n, element(self.kind(n._nv_parent.iter, env)), env, n)  # type: ignore
            return
        if isinstance(n, ast.expr):
            self.scan(n, env)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.store(x.target, self.kind(x.value, env), env, x)
            return
        if isinstance(n, ast.withitem):
            self.scan(n.context_expr, env)
            if n.optional_vars is not None:
                self.bind(n.optional_vars, None, env, n)
            return
        if isinstance(n, ast.ExceptHandler):
            if n.name:
                env.pop(n.name, None)
            return
        self.scan(n, env)
        if isinstance(n, ast.Assign):
            k = self.kind(n.value, env)
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                    for x, v in [(x, self.kind(v, env)) for x, v in zip(t.elts, n.value.elts)]:
                        self.bind(x, v, env, n)
                else:
                    self.bind(t, k, env, n)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            self.bind(n.target, self.kind(n.value, env), env, n)
        elif isinstance(n, ast.AugAssign):
            t = n.target
            if isinstance(t, ast.Subscript):
                self.effect(n, self.kind(t.value, env), f"{ast.unparse(t)[:60]} is modified")
            elif isinstance(t, ast.Attribute):
                if not (isinstance(t.value, ast.Name) and t.value.id == self.first and t.value.id not in env):
                    self.effect(n, self.kind(t.value, env), f"{ast.unparse(t)} is modified")
                elif self.inplace(t, n.value, env):
                    self.effect(n, self.kind(t, env), f"{ast.unparse(t)} is modified in place")
            elif isinstance(t, ast.Name):
                if t.id in self.globals and not self.only:
                    self.effects.append((n, (0, "module-state", f"{self.f.module.name}.{t.id}"), f"the global {t.id} is modified"))
                elif self.inplace(t, n.value, env):
                    if not self.completes(t, n):
                        self.effect(n, self.kind(t, env), f"{t.id} is modified in place")
                else:
                    env.pop(t.id, None)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.first and t.value.id not in env):
                        self.effect(n, self.kind(t.value, env), f"{ast.unparse(t)[:60]} is deleted")
        elif isinstance(n, ast.Return):
            self.returns.append(self.kind(n.value, env))


def contained(n: tp.Any) -> bool:
    """Under a context manager which restores the state."""
    while getattr(n, "_nv_parent", None) is not None:
        n = n._nv_parent
        if isinstance(n, ast.With) and any("catch_warnings" in ast.unparse(i.context_expr) or "errstate" in ast.unparse(i.context_expr) for i in n.items):
            return True
    return False


SCOPE = ("nevergrad.optimization.", "nevergrad.parametrization.", "nevergrad.common.", "nevergrad.ops.")
RULES = {
    "module-state": "no module variable, module or function attribute is modified at run time",
    "class-state": "no class or class-level container is modified at run time",
    "factory-options": "a factory and the options it hands to its optimizers are not modified by them",
    "default-arguments": "default argument values are not modified",
    "registration": "optimizers are registered at import time only",
    "process-state": "process-wide settings are left alone",
}


def check(ctx: Ctx) -> None:
    for k, v in RULES.items():
        ctx.rule(k, v, 1)
    an = Analysis(ctx)
    mentioned = {
        n.attr if isinstance(n, ast.Attribute) else n.id
        for f in ctx.project.functions("nevergrad.")
        if not below_tests(f)
        for n in walk_local(f.node)
        if isinstance(n, (ast.Attribute, ast.Name)) and not (isinstance(n._nv_parent, ast.Attribute) and n._nv_parent.attr == "__name__")  # type: ignore
    }
    active = [an.opt, an.factory, parameter(ctx)]
    # what nothing in the package calls is an explicit action of the user, except in the classes which make up a run
    funcs = [
        f
        for f in ctx.project.functions(SCOPE)
        if not below_tests(f) and (f.name in mentioned or f.name.startswith("__") or isinstance(f.node, ast.Lambda) or f.cls is not None and any(f.cls.is_subclass_of(c) for c in active) or f.parent is not None or f.is_property)
    ]
    for _ in range(3):
        before = dict(an.attrs)
        an.summaries = {k: v for k, v in an.summaries.items() if k[0] == "mod"}
        for f in funcs:
            if f.cls is None or self_name(f) is None:
                continue
            run = Run(an, f, f.cls, an.arguments(f), report=False)
            run.go()
            for name, ks in run.self_attrs.items():
                key = (f.cls.fullname, name)
                k = low(ks + [an.attrs.get(key)])
                if k is not None:
                    an.attrs[key] = k
        if an.attrs == before:
            break
    an.summaries = {k: v for k, v in an.summaries.items() if k[0] == "mod"}
    shared = 0
    for f in funcs:
        ctx.seen(f) if hasattr(ctx, "seen") and callable(getattr(ctx, "seen")) else None
        args = an.arguments(f)
        run = Run(an, f, f.cls, args)
        run.go()
        shared += len(args)
        done = set()
        for n, k, what in run.effects:
            if (id(n), k) in done:
                continue
            done.add((id(n), k))
            ctx.bad(k[1], f"{f.fullname}: {k[2]}", f.loc(n), f"{what}: {k[2]} is shared with other optimizers", "")
        for r in RULES:
            if not any(k[1] == r for _, k, _ in run.effects):
                ctx.ok(r, f.fullname)
    ctx.notes.append(f"{len(an.attrs)} attributes hold shared objects; {shared} arguments are shared")


def below_tests(f: FuncInfo) -> bool:
    return f.module.name.startswith("nevergrad.common.testing") or ".examples." in f.module.name
