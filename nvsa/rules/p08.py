"""Optimizers and parametrizations stay picklable."""
from __future__ import annotations

import re

from .common import *
from .p12 import bind, defaults, enclosing, parent

TECHNIQUE = "whole-package value-kind analysis of everything stored in attributes (def-use through locals, containers, arguments, defaults and returned values), plus path analysis of the state hooks and of dump/load"
EXPLANATION = (
    "Every value stored in an attribute, or put in a container held by an attribute, anywhere in the optimizers, parametrizations and common tools, is traced through local variables, containers, partial applications, the arguments of "
    "every call of the package and the values functions return; none may be a lambda, a local function or class, a generator, a lock, a thread, a queue, an open file, a dictionary view, a weak reference, a module or a misnamed class. "
    "The only thread held by optimizers is removed from the pickled state and put back by __getstate__ on every path, the tells are recorded while pickling is enabled and __setstate__ replays them; dump writes self and load checks what it read."
)
SCOPE = ("nevergrad.optimization", "nevergrad.parametrization", "nevergrad.common", "nevergrad.ops")
EXCLUDED = ("nevergrad.optimization.callbacks", "nevergrad.common.testing", "nevergrad.optimization.multiobjective.test", "nevergrad.optimization.experimentalvariants_test")
CONTAINERS = {"list", "tuple", "set", "dict", "frozenset", "sorted", "deque", "OrderedDict", "defaultdict", "partial", "partialmethod", "map", "filter", "zip", "enumerate", "iter", "reversed", "chain", "cycle", "islice", "repeat", "vectorize", "array", "SimpleNamespace", "attrgetter", "ChainMap", "Counter", "cast"}
ONLY_CONSUMED = {"sorted"}  # keyword arguments of these are not kept
FILES = {"open", "TemporaryFile", "NamedTemporaryFile", "SpooledTemporaryFile", "fdopen", "StringIO_"}
REFUSED = {
    "threading.Lock": "a lock", "threading.RLock": "a lock", "threading.Event": "a lock (Event)", "threading.Condition": "a lock (Condition)", "threading.Semaphore": "a lock (Semaphore)", "threading.BoundedSemaphore": "a lock (Semaphore)",
    "threading.Barrier": "a lock (Barrier)", "threading.Thread": "a thread", "threading.Timer": "a thread", "threading.local": "a thread-local object", "threading.current_thread": "a thread", "queue.Queue": "a queue (holds locks)",
    "queue.LifoQueue": "a queue (holds locks)", "queue.PriorityQueue": "a queue (holds locks)", "queue.SimpleQueue": "a queue", "multiprocessing.Queue": "a queue", "multiprocessing.Pool": "a process pool", "multiprocessing.Lock": "a lock",
    "multiprocessing.Process": "a process", "multiprocessing.pool.ThreadPool": "a thread pool", "subprocess.Popen": "a process", "concurrent.futures.ThreadPoolExecutor": "an executor", "concurrent.futures.ProcessPoolExecutor": "an executor",
    "weakref.ref": "a weak reference", "weakref.proxy": "a weak reference", "weakref.WeakKeyDictionary": "a weak dictionary", "weakref.WeakValueDictionary": "a weak dictionary", "weakref.WeakSet": "a weak set", "weakref.finalize": "a finalizer",
    "weakref.WeakMethod": "a weak reference", "types.MappingProxyType": "a mapping proxy", "contextvars.ContextVar": "a context variable", "socket.socket": "a socket", "sqlite3.connect": "a database connection", "sys._getframe": "a frame",
    "inspect.currentframe": "a frame", "os.scandir": "an iterator of the file system", "os.popen": "an open file", "memoryview": "a memory view", "tempfile.TemporaryFile": "an open file", "tempfile.NamedTemporaryFile": "an open file",
    "tempfile.TemporaryDirectory": "a temporary directory (finalizer)", "io.open": "an open file", "codecs.open": "an open file", "gzip.open": "an open file", "sys.stdout": "an open file", "sys.stderr": "an open file", "sys.stdin": "an open file",
    "itertools.tee": "an iterator", "types.FunctionType": "a function built at run time",
}
STORERS = {"append", "extend", "insert", "add", "update", "setdefault", "appendleft", "extendleft", "__setitem__", "put"}
VIEWS = {"keys", "values", "items"}
Kind = tp.Tuple[str, str]  # (what, where)


class Kinds:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx, self.project = ctx, ctx.project
        self.busy: tp.Set[tp.Any] = set()
        self.memo: tp.Dict[tp.Any, tp.FrozenSet[Kind]] = {}
        self.previous: tp.Dict[tp.Any, tp.FrozenSet[Kind]] = {}
        self.names: tp.Dict[str, tp.Set[str]] = {}
        self.imports: tp.Dict[str, tp.Set[str]] = {}
        self.functions = [f for f in ctx.project.functions(SCOPE) if not f.module.name.startswith(EXCLUDED) and ".test_" not in f.module.name]
        self.calls: tp.Dict[str, tp.List[tp.Tuple[tp.Optional[FuncInfo], Module, ast.Call, FuncInfo]]] = {}
        self.by_name: tp.Dict[str, tp.List[FuncInfo]] = {}
        for f in self.functions:
            if f.cls is not None and f.parent is None:
                self.by_name.setdefault(f.name, []).append(f)
        for f in self.functions:
            for n in walk_local(f.node):
                if isinstance(n, ast.Call):
                    self.index(n, f, f.module)
        for m in ctx.project.modules.values():
            if m.name.startswith(SCOPE) and not m.name.startswith(EXCLUDED) and ".test_" not in m.name:
                for st in m.tree.body:
                    self.module_calls(st, m)
        self.helpers = self.helper_classes()

    def module_calls(self, st: ast.AST, m: Module) -> None:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in st.decorator_list:
                self.module_calls(d, m)
            return
        if isinstance(st, ast.Call):
            self.index(st, None, m)
        for c in ast.iter_child_nodes(st):
            self.module_calls(c, m)

    def index(self, call: ast.Call, f: tp.Optional[FuncInfo], m: Module) -> None:
        for t in self.targets(call, f, m):
            self.calls.setdefault(t.fullname, []).append((f, m, call, t))

    def targets(self, call: ast.Call, f: tp.Optional[FuncInfo], m: Module) -> tp.List[FuncInfo]:
        t: tp.Any = None
        if f is not None:
            t = self.project.call_target(call, f)
            if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Call) and isinstance(call.func.value.func, ast.Name) and call.func.value.func.id == "super":
                owner = f
                while owner.cls is None and owner.parent is not None:
                    owner = owner.parent
                if owner.cls is not None:  # any continuation of the method resolution order
                    hits = {}
                    for sub in [owner.cls] + owner.cls.all_subclasses():
                        meth = sub.find_method(call.func.attr, after=owner.cls)
                        if meth is not None:
                            hits[meth.fullname] = meth
                    return list(hits.values())
        else:
            t = self.project.resolve_expr(call.func, m)
            if isinstance(t, ClassInfo) or isinstance(t, FuncInfo):
                pass
            elif isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Call):
                base = self.project.resolve_expr(call.func.value.func, m)
                if isinstance(base, ClassInfo):
                    t = base.find_method(call.func.attr)
        if isinstance(t, ClassInfo):
            t = t.find_method("__init__")
        if isinstance(t, FuncInfo):
            if t.cls is not None and isinstance(call.func, ast.Attribute) and t.name != "__init__":
                return [t] + [s.methods[t.name] for s in t.cls.all_subclasses() if t.name in s.methods]
            return [t]
        if isinstance(call.func, ast.Attribute) and call.func.attr not in Interp.MUTATORS | {"get", "copy", "keys", "values", "items", "__init__", "call", "format", "join", "run", "stop"}:
            return [g for g in self.by_name.get(call.func.attr, []) if not g.is_property]
        return []

    def helper_classes(self) -> tp.Dict[str, str]:
        """Classes which cannot be pickled by construction: threads, and their wrappers outside of the optimizers."""
        roots = {optimizer(self.ctx), parameter(self.ctx)}
        out: tp.Dict[str, str] = {}
        for c in self.project.classes():
            if c.module.name.startswith(SCOPE) and any(REFUSED.get(b) for x in c.mro for b in x.external_bases):
                out[c.fullname] = next(REFUSED[b] for x in c.mro for b in x.external_bases if b in REFUSED)
        changed = True
        while changed:
            changed = False
            for c in self.project.classes():
                if c.fullname in out or not c.module.name.startswith(SCOPE) or any(r in c.mro for r in roots):
                    continue
                for g in c.methods.values():
                    for n in walk_local(g.node):
                        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call):
                            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                            if any(isinstance(t, ast.Attribute) for t in ts):
                                k = self.project.resolve_expr(n.value.func, g.module, g)
                                if isinstance(k, ClassInfo) and k.fullname in out:
                                    out[c.fullname] = "a wrapper of " + out[k.fullname]
                                    changed = True
        return out

    # ---- resolution
    def entity(self, e: ast.expr, f: tp.Optional[FuncInfo], m: Module) -> tp.Any:
        return self.project.resolve_expr(e, m, f)

    def scope_of(self, name: str, f: tp.Optional[FuncInfo]) -> tp.Optional[FuncInfo]:
        """The enclosing function which binds this name."""
        g = f
        while g is not None:
            if g.fullname not in self.names:
                self.names[g.fullname] = set(g.locals) | ({n.name for n in self.nested(g)} if not isinstance(g.node, ast.Lambda) else set())
            if name in self.names[g.fullname]:
                return g
            g = g.parent
        return None

    def kind(self, e: tp.Optional[ast.expr], f: tp.Optional[FuncInfo], m: Module, depth: int = 0) -> tp.FrozenSet[Kind]:
        if e is None or depth > 150:
            return frozenset()
        key = (id(e), f.fullname if f else "")
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return self.previous.get(key, frozenset())
        self.busy.add(key)
        try:
            out = frozenset(self.compute(e, f, m, depth + 1))
        finally:
            self.busy.discard(key)
        self.memo[key] = out
        return out

    def where(self, n: ast.AST, m: Module) -> str:
        return f"{m.relpath}:{getattr(n, 'lineno', 0)}"

    def compute(self, e: ast.expr, f: tp.Optional[FuncInfo], m: Module, d: int) -> tp.Set[Kind]:
        def many(xs: tp.Iterable[tp.Optional[ast.expr]]) -> tp.Set[Kind]:
            out: tp.Set[Kind] = set()
            for x in xs:
                out |= self.kind(x, f, m, d)
            return out

        if isinstance(e, ast.Lambda):
            return {("a lambda", self.where(e, m))}
        if isinstance(e, ast.GeneratorExp):
            return {("a generator", self.where(e, m))}
        if isinstance(e, ast.IfExp):
            return many([e.body, e.orelse])
        if isinstance(e, ast.BoolOp):
            return many(e.values)
        if isinstance(e, (ast.NamedExpr, ast.Starred, ast.Await)):
            return many([e.value])
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return many(e.elts)
        if isinstance(e, ast.Dict):
            return many(list(e.keys) + list(e.values))
        if isinstance(e, (ast.ListComp, ast.SetComp)):
            return many([e.elt])
        if isinstance(e, ast.DictComp):
            return many([e.key, e.value])
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)):
            return many([e.left, e.right])
        if isinstance(e, ast.Subscript):
            base = self.kind(e.value, f, m, d)
            return {k for k in base if k[0] in ("a lambda", "a local function", "a local class") or k[0].startswith("a lock")}
        if isinstance(e, ast.Name):
            return self.name(e, f, m, d)
        if isinstance(e, ast.Attribute):
            return self.attribute(e, f, m, d)
        if isinstance(e, ast.Call):
            return self.call(e, f, m, d)
        return set()

    def name(self, e: ast.Name, f: tp.Optional[FuncInfo], m: Module, d: int) -> tp.Set[Kind]:
        # variable of a comprehension
        cur: tp.Any = parent(e)
        while cur is not None and not isinstance(cur, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module)):
            if isinstance(cur, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for gen in cur.generators:
                    if any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(gen.target)):
                        return self.elements(gen.iter, f, m, d)
            if isinstance(cur, ast.Lambda) and any(a.arg == e.id for a in cur.args.args):
                return set()
            cur = parent(cur)
        g = self.scope_of(e.id, f)
        if g is None:
            ent = m.resolve(e.id)
            return self.resolved(ent, e, m, d)
        return self.local(e.id, g, d)

    def elements(self, it: ast.expr, f: tp.Optional[FuncInfo], m: Module, d: int) -> tp.Set[Kind]:
        return {k for k in self.kind(it, f, m, d) if k[0] in ("a lambda", "a local function", "a local class") or k[0].startswith(("a lock", "a thread", "a job"))}

    def resolved(self, ent: tp.Any, e: ast.expr, m: Module, d: int) -> tp.Set[Kind]:
        if isinstance(ent, Module):
            return {("a module", self.where(e, m))}
        if isinstance(ent, External):
            if ent.dotted in REFUSED and ent.dotted.startswith("sys.std"):
                return {(REFUSED[ent.dotted], self.where(e, m))}
            if "." not in ent.dotted and isinstance(e, ast.Name) and self.imported_module(e.id, m):
                return {("a module", self.where(e, m))}
            if isinstance(e, ast.Name) and self.imported_module(e.id, m):
                return {("a module", self.where(e, m))}
            return set()
        if isinstance(ent, ModVar):
            out: tp.Set[Kind] = set()
            for x in ent.exprs:
                out |= self.kind(x, None, ent.module, d)
            return out
        if isinstance(ent, ClassInfo) and self.local_class(ent):
            return {("a local class", self.where(ent.node, ent.module))}
        if isinstance(ent, FuncInfo) and ent.parent is not None and ent.cls is None:
            return {("a local function", self.where(ent.node, ent.module))}
        return set()

    def imported_module(self, name: str, m: Module) -> bool:
        """The name is bound by `import x` (not `from x import name`)."""
        if m.name not in self.imports:
            self.imports[m.name] = {a.asname or a.name.split(".")[0] for n in ast.walk(m.tree) if isinstance(n, ast.Import) for a in n.names}
        return name in self.imports[m.name]

    @staticmethod
    def local_class(c: ClassInfo) -> bool:
        cur = parent(c.node)
        while cur is not None:
            if isinstance(cur, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return True
            cur = parent(cur)
        return False

    def local(self, name: str, g: FuncInfo, d: int) -> tp.Set[Kind]:
        out: tp.Set[Kind] = set()
        a = g.node.args
        if isinstance(g.node, ast.Lambda):
            return out
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if name in params or name in [x.arg for x in (a.vararg, a.kwarg) if x is not None]:
            out |= self.parameter(g, name, d)
        for n in self.nested(g):
            if n.name == name:
                out.add(("a local class" if isinstance(n, ast.ClassDef) else "a local function", self.where(n, g.module)))
        for n in walk_local(g.node):
            if isinstance(n, (ast.Import,)) and any((x.asname or x.name.split(".")[0]) == name for x in n.names):
                out.add(("a module", self.where(n, g.module)))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    out |= self.unpack(t, n.value, name, g, d)
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
                        out |= self.kind(n.value, g, g.module, d)
            elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                out |= self.unpack(n.target, n.value, name, g, d)
            elif isinstance(n, ast.NamedExpr) and n.target.id == name:
                out |= self.kind(n.value, g, g.module, d)
            elif isinstance(n, (ast.For, ast.AsyncFor)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                out |= self.elements(n.iter, g, g.module, d)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    if isinstance(it.optional_vars, ast.Name) and it.optional_vars.id == name:
                        out |= {k for k in self.kind(it.context_expr, g, g.module, d) if k[0] in ("an open file", "an executor", "a thread pool", "a process pool", "a process")}
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in STORERS and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                for x in list(n.args) + [k.value for k in n.keywords]:
                    out |= self.kind(x, g, g.module, d)
        return out

    @staticmethod
    def nested(g: FuncInfo) -> tp.Iterator[tp.Any]:
        """Functions and classes defined directly in this function."""
        todo: tp.List[ast.AST] = list(g.node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                yield n
                continue
            if not isinstance(n, ast.Lambda):
                todo.extend(ast.iter_child_nodes(n))

    def unpack(self, t: ast.expr, v: ast.expr, name: str, g: FuncInfo, d: int) -> tp.Set[Kind]:
        if isinstance(t, ast.Name):
            return set(self.kind(v, g, g.module, d)) if t.id == name else set()
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                out: tp.Set[Kind] = set()
                for x, y in zip(t.elts, v.elts):
                    out |= self.unpack(x, y, name, g, d)
                return out
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                return self.elements(v, g, g.module, d)
        return set()

    def parameter(self, g: FuncInfo, name: str, d: int) -> tp.Set[Kind]:
        """Values given by the package's own call sites, and the default."""
        out: tp.Set[Kind] = set()
        if g.cls is not None and not g.is_static and g.params and g.params[0].arg == name:
            return out
        dflt = defaults(g).get(name)
        if dflt is not None:
            out |= self.kind(dflt, None, g.module, d)
        a = g.node.args
        bound = 1 if g.cls is not None and not g.is_static else 0
        pos = [x.arg for x in a.posonlyargs + a.args][bound:]
        for f, m, call, t in self.calls.get(g.fullname, []):
            if t is not g:
                continue
            shift = pos
            if f is not None and isinstance(call.func, ast.Attribute) and g.cls is not None and bound and isinstance(self.project.resolve_expr(call.func.value, m, f), ClassInfo) and not g.is_classmethod:
                shift = [x.arg for x in a.posonlyargs + a.args]
            given = bind(call, shift)
            if name in given:
                out |= self.kind(given[name], f, m, d)
            elif a.kwarg is not None and a.kwarg.arg == name:
                for k, v in given.items():
                    if k not in pos and k not in [x.arg for x in a.kwonlyargs]:
                        out |= self.kind(v, f, m, d)
            elif a.vararg is not None and a.vararg.arg == name:
                for v in call.args[len(shift) :]:
                    out |= self.kind(v, f, m, d)
            for x in call.keywords:  # f(**mapping)
                if x.arg is None and name not in given:
                    out |= {k for k in self.kind(x.value, f, m, d) if f is not g}
        return out

    def attribute(self, e: ast.Attribute, f: tp.Optional[FuncInfo], m: Module, d: int) -> tp.Set[Kind]:
        ent = self.entity(e, f, m)
        if isinstance(ent, Module):
            return {("a module", self.where(e, m))}
        if isinstance(ent, (ClassInfo, FuncInfo)):
            return self.resolved(ent, e, m, d)
        if isinstance(ent, External) and ent.dotted in REFUSED and ent.dotted.startswith("sys.std"):
            return {(REFUSED[ent.dotted], self.where(e, m))}
        if e.attr in ("__code__", "__dict__") and e.attr == "__code__":
            return {("a code object", self.where(e, m))}
        base = self.kind(e.value, f, m, d)
        out = {k for k in base if k[0] in ("a weak reference",)}
        for k in base:  # a queue or the inner thread of a helper
            if k[0].startswith(("a thread", "a wrapper of")) and e.attr in ("_thread", "messages_ask", "messages_tell"):
                out.add(k)
        # attribute of another function object or of the class: lambdas stored on the class are methods, not state
        if f is not None and f.cls is not None and isinstance(e.value, ast.Name) and f.params and e.value.id == f.params[0].arg and not f.is_static:
            own, val = f.cls.find_class_attr(e.attr)
            if own is not None and isinstance(val, ast.Lambda):
                out.add(("a lambda", self.where(val, own.module)))
        return out

    def call(self, e: ast.Call, f: tp.Optional[FuncInfo], m: Module, d: int) -> tp.Set[Kind]:
        def given(keys: bool = True) -> tp.Set[Kind]:
            out: tp.Set[Kind] = set()
            for x in list(e.args) + ([k.value for k in e.keywords] if keys else []):
                out |= self.kind(x, f, m, d)
            return out

        fn = e.func
        short_name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        ent = self.entity(fn, f, m)
        if isinstance(ent, External) or ent is None:
            dotted = ent.dotted if isinstance(ent, External) else short_name if isinstance(fn, ast.Name) else ""
            dotted = dotted.replace("builtins.", "")
            if dotted in REFUSED:
                return {(REFUSED[dotted], self.where(e, m))}
            if dotted == "open" or isinstance(fn, ast.Attribute) and fn.attr == "open" and (isinstance(ent, External) or not isinstance(self.project.expr_type(fn.value, f), ClassInfo)):
                return {("an open file", self.where(e, m))}
            if dotted == "__import__" or dotted == "importlib.import_module":
                return {("a module", self.where(e, m))}
            if dotted in ("locals", "vars") and not e.args and f is not None:
                out: tp.Set[Kind] = set()
                for x in f.params + f.node.args.kwonlyargs:
                    if f.cls is None or x is not f.params[0]:
                        out |= self.local(x.arg, f, d)
                return out
            last = dotted.rsplit(".", 1)[-1]
            if last == "namedtuple" or last == "NamedTuple" or dotted == "type" and len(e.args) == 3:
                return self.made_class(e, f, m)
            if last in CONTAINERS:
                got = given(last not in ONLY_CONSUMED)
                if last in ("list", "tuple", "set", "sorted", "frozenset", "dict", "deque", "array", "OrderedDict", "chain"):
                    got = {k for k in got if k[0] not in ("a generator", "a dictionary view")}
                return got
            if last[:1].isupper() and not last.isupper() and isinstance(ent, External):
                return {k for k in given() if k[0] in ("a lambda", "a local function", "a local class") or k[0].startswith(("a thread", "a lock", "an open file"))}
        if isinstance(ent, ModVar):  # a class made by namedtuple(...)
            for x in ent.exprs:
                if isinstance(x, ast.Call):
                    made = self.made_class(x, None, ent.module, ent.name)
                    if made:
                        return made
        if isinstance(fn, ast.Attribute) and fn.attr in ("submit", "apply_async", "map_async"):
            return {("a job of an executor (a future holds locks)", self.where(e, m))}
        if isinstance(fn, ast.Attribute) and fn.attr in VIEWS and not e.args:
            t = self.project.expr_type(fn.value, f) if f is not None else None
            if not isinstance(t, ClassInfo) or t.find_method(fn.attr) is None:
                return {("a dictionary view", self.where(e, m))}
        if isinstance(fn, ast.Attribute) and fn.attr in ("get", "pop", "setdefault", "copy", "popleft", "__getitem__") and not isinstance(ent, (External, FuncInfo)):
            return self.elements(fn.value, f, m, d) if fn.attr != "copy" else set(self.kind(fn.value, f, m, d))
        t = ent if isinstance(ent, (FuncInfo, ClassInfo)) else self.project.call_target(e, f) if f is not None else None
        if isinstance(t, ClassInfo):
            if t.fullname in self.helpers:
                return {(self.helpers[t.fullname], self.where(e, m))}
            if self.local_class(t):
                return {("an instance of a local class", self.where(e, m))}
            return set()
        if isinstance(fn, ast.Name) and f is not None and not isinstance(t, FuncInfo):
            for g in [f] + ([f.parent] if f.parent else []):  # local class or function
                for n in self.nested(g) if not isinstance(g.node, ast.Lambda) else ():
                    if isinstance(n, ast.ClassDef) and n.name == fn.id:
                        return {("an instance of a local class", self.where(e, m))}
        if isinstance(t, FuncInfo) and not isinstance(t.node, ast.Lambda):
            if t.is_generator:
                return set() if t.is_contextmanager else {("a generator", self.where(e, m))}
            return self.returned(t, e, f, m, d)
        return set()

    def made_class(self, e: ast.Call, f: tp.Optional[FuncInfo], m: Module, name: tp.Optional[str] = None) -> tp.Set[Kind]:
        text = ast.unparse(e.func).rsplit(".", 1)[-1]
        if text not in ("namedtuple", "NamedTuple") and not (text == "type" and len(e.args) == 3):
            return set()
        if f is not None:
            return {("a class made in a function", self.where(e, m))}
        if name is not None and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value != name:
            return {(f"an instance of a class named {e.args[0].value!r} but bound to {name!r}", self.where(e, m))}
        return set()

    def returned(self, t: FuncInfo, e: ast.Call, f: tp.Optional[FuncInfo], m: Module, d: int) -> tp.Set[Kind]:
        out: tp.Set[Kind] = set()
        names = {x.arg for x in t.params + t.node.args.kwonlyargs}
        for n in walk_local(t.node):
            if isinstance(n, ast.Return) and n.value is not None:
                if isinstance(n.value, ast.Name) and n.value.id in names:
                    pos = [x.arg for x in t.params][1 if t.cls is not None and not t.is_static else 0 :]
                    out |= self.kind(bind(e, pos).get(n.value.id), f, m, d)
                else:
                    out |= self.kind(n.value, t, t.module, d)
        return out


def stores(f: FuncInfo) -> tp.Iterator[tp.Tuple[ast.AST, str, tp.List[ast.expr], tp.Optional[ast.expr]]]:
    """(node, attribute description, stored expressions, object) for every store in an attribute or in a container it holds."""

    def attr_of(t: ast.expr) -> tp.Optional[ast.Attribute]:
        while isinstance(t, (ast.Subscript, ast.Starred)) or isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ("setdefault", "get"):
            t = t.func.value if isinstance(t, ast.Call) else t.value  # type: ignore
        return t if isinstance(t, ast.Attribute) else None

    aliases: tp.Dict[str, ast.Attribute] = {}
    for n in walk_local(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Attribute, ast.Subscript)):
            a = attr_of(n.value)
            if a is not None:
                aliases[n.targets[0].id] = a
    for n in walk_local(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None:
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                pairs: tp.List[tp.Tuple[ast.expr, ast.expr]] = [(t, n.value)]
                if isinstance(t, (ast.Tuple, ast.List)):
                    pairs = list(zip(t.elts, n.value.elts)) if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t.elts) else [(x, n.value) for x in t.elts]
                for x, v in pairs:
                    a = attr_of(x)
                    if a is None and isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in aliases:
                        a = aliases[x.value.id]
                    if a is not None:
                        yield n, a.attr, [v] + ([x.slice] if isinstance(x, ast.Subscript) else []), a.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in STORERS:
            a = attr_of(n.func.value)
            if a is None and isinstance(n.func.value, ast.Name) and n.func.value.id in aliases:
                a = aliases[n.func.value.id]
            if a is not None:
                yield n, a.attr, list(n.args) + [k.value for k in n.keywords], a.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
            name = n.args[1].value if isinstance(n.args[1], ast.Constant) else ast.unparse(n.args[1])
            yield n, str(name), [n.args[2]], n.args[0]


def is_class(ctx: Ctx, obj: ast.Name, f: FuncInfo) -> bool:
    """The parameter denotes a class: annotated so, or the function is only used as a decorator of classes."""
    for x in f.params:
        if x.arg == obj.id and x.annotation is not None and "Type[" in ast.unparse(x.annotation):
            return True
    if f.params and f.params[0].arg == obj.id and f.cls is None:
        decorated = [n for m in ctx.project.modules.values() for n in ast.walk(m.tree) if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and any(ast.unparse(d).split(".")[-1] == f.name for d in n.decorator_list)]
        calls = [n for m in ctx.project.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == f.name]
        given = [ctx.project.resolve_expr(n.args[0], f.module) for n in calls if n.args]
        return all(isinstance(n, ast.ClassDef) for n in decorated) and all(isinstance(x, ClassInfo) for x in given) and bool(decorated or given)
    return False


CONSUME = {"extend", "update", "extendleft"}


def check(ctx: Ctx) -> None:
    r1, r2, r3, r4 = "values", "state-hooks", "replay", "dump-load"
    ctx.rule("values", "no attribute of an object of the library (nor a container it holds) ever receives a value which pickle refuses", 200)
    ctx.rule("state-hooks", "the pickled state is the whole state without the thread, the optimizer keeps its thread, and unpickling restores the whole state", 3)
    ctx.rule("replay", "with pickling enabled, every answer posted to the algorithm is recorded, and replayed in order after unpickling", 2)
    ctx.rule("dump-load", "dump writes the optimizer itself in binary mode to the given path, load returns what it read only if it is of the right class", 3)
    kinds = Kinds(ctx)
    hooks(ctx, kinds, r1, r2, r3)
    dump_load(ctx, r4)
    recast = ctx.project.cls("nevergrad.optimization.recaster", "RecastOptimizer")
    for _ in range(3):  # cycles between functions and attributes: iterate to a fixpoint
        kinds.previous, kinds.memo = kinds.memo, {}
        for f in kinds.functions:
            for _, _, values, _ in stores(f):
                for v in values:
                    kinds.kind(v, f, f.module)
        if kinds.previous == kinds.memo:
            break
    n_attr = 0
    for f in kinds.functions:
        owner: tp.Any = f
        while owner.cls is None and owner.parent is not None:
            owner = owner.parent
        cls = owner.cls
        if cls is not None and cls.fullname in kinds.helpers:
            continue
        ctx.seen(f)
        for node, name, values, obj in stores(f):
            n_attr += 1
            got: tp.Set[Kind] = set()
            for v in values:
                k = kinds.kind(v, f, f.module)
                if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in CONSUME:
                    k = frozenset(x for x in k if x[0] not in ("a generator", "a dictionary view"))
                got |= k
            if name.startswith("__") and name.endswith("__"):
                continue  # attributes of classes and functions
            if isinstance(obj, ast.Attribute) and obj.attr == "__class__" or isinstance(obj, ast.Call) and isinstance(obj.func, ast.Name) and obj.func.id == "type":
                continue
            if isinstance(obj, ast.Name) and (obj.id == "cls" or is_class(ctx, obj, f) or isinstance(ctx.project.resolve_expr(obj, f.module, f), (ClassInfo, Module, FuncInfo))):
                continue  # class attributes are not pickled
            if name == "_messaging_thread" and cls is not None and cls.is_subclass_of(recast) and all(k[0].startswith(("a wrapper", "a thread")) for k in got):
                got = set()  # removed by the state hooks (rule state-hooks), or not meant to be checkpointed
            for what, where in sorted(got):
                jobs = what.startswith("a job of")
                ctx.bad(r1, f"{cls.name if cls else f.qualname}: {'jobs' if jobs else name + ': ' + what}", f.loc(node), f"the attribute {name} receives {what} (from {where}), which cannot be pickled", ast.unparse(node)[:200])
            if not got:
                ctx.ok(r1, f"{f.fullname}: {name}")
    ctx.notes.append(f"{n_attr} stores in attributes, {len(kinds.functions)} functions, helper classes: {', '.join(sorted(kinds.helpers))}")


# ---- state hooks
HOOKS = ("__getstate__", "__setstate__", "__reduce__", "__reduce_ex__", "__getnewargs__", "__getnewargs_ex__", "__copy__", "__deepcopy__")


def hooks(ctx: Ctx, kinds: Kinds, r1: str, r2: str, r3: str) -> None:
    rec = ctx.project.cls("nevergrad.optimization.recaster", "SequentialRecastOptimizer")
    for f in kinds.functions:
        if f.cls is None or f.name not in HOOKS or f.parent is not None:
            continue
        ctx.seen(f)
        if f.name == "__getstate__":
            check_getstate(ctx, r2, f, rec)
        elif f.name == "__setstate__":
            check_setstate(ctx, r2, r3, f, rec)
        elif f.name in ("__copy__", "__deepcopy__"):
            continue
        else:
            ctx.bad(r2, f.qualname, f.loc(), f"{f.name} is defined: it is not known to keep the whole state")
    for name in ("__getstate__", "__setstate__"):
        ctx.check(r2, rec.find_method(name) is not None, f"{rec.name}.{name}", rec.methods["__init__"].loc(), f"{name} of the optimizers running in a thread is missing")
    tell = rec.find_method("_internal_tell_candidate")
    assert tell is not None
    n = 0
    for p in ctx.paths(tell, P(max_depth=6, opaque=CONTRACT | {"_post_loss", "put", "is_alive"} - {"_internal_tell_candidate"}), rec):
        if p.kind == "raise":
            continue
        puts = [e for e in p.events if is_call(e, "put") and contains(e.data["recv"], attr("_messaging_thread"))]
        apps = [e for e in p.events if is_call(e, "append") and e.data["recv"] == attr("replay_archive_tell")]
        if not puts:
            ctx.check(r3, not apps, "tell", tell.loc(), "a tell which is not given to the algorithm is recorded for the replay", path_note(p))
            continue
        off = any(t in (attr("_enable_pickling"), ("truth", attr("_enable_pickling"))) and not b for t, b in p.conds)
        for ev in puts:
            n += 1
            v = ev.data["args"][0] if ev.data["args"] else None
            want = ("tuple", (("param", tell.params[1].arg), v))
            ok = off or any(a.data["args"] and a.data["args"][0] == want for a in apps)
            ctx.check(r3, ok, "tell", tell.loc(ev.node), "an answer is posted to the algorithm without being recorded for the replay although pickling is enabled", path_note(p))
    ctx.check(r3, n > 0, "tell", tell.loc(), "no path of the tell posts an answer")


def check_getstate(ctx: Ctx, r2: str, f: FuncInfo, rec: ClassInfo) -> None:
    me: Term = ("param", f.params[0].arg)
    bases = f.cls.is_subclass_of(rec) or rec.is_subclass_of(f.cls)  # type: ignore
    for p in ctx.paths(f, P(max_depth=4), f.cls):
        sets = [e for e in p.events if e.kind in ("setattr", "delattr") and e.data["base"] == me]
        last: tp.Dict[str, tp.Any] = {}
        for e in sets:
            last[e.data["name"]] = e.data.get("value") if e.kind == "setattr" else None
        for name, v in last.items():
            ctx.check(r2, v == attr(name, me), f"{f.qualname}: {name}", f.loc(), f"dumping the optimizer changes its attribute {name}", path_note(p))
        if p.kind == "raise":
            continue
        removed: tp.Set[str] = set()
        whole = False
        for n in walk_local(f.node):  # {**self.__dict__, "...": None}
            if isinstance(n, ast.Dict) and any(k is None and ast.unparse(v) == f"{me[1]}.__dict__" for k, v in zip(n.keys, n.values)):
                whole = True
                removed |= {k.value for k in n.keys if isinstance(k, ast.Constant)}
        copies = [i for i, e in enumerate(p.events) if e.kind == "call" and (e.data["recv"] == attr("__dict__", me) and short(e) == "copy" or short(e) in ("dict", "copy", "update") and any(contains(a, attr("__dict__", me)) for a in e.data["args"]))]
        value = p.value
        whole = whole or contains(value, attr("__dict__", me)) or bool(copies)
        comp = any(isinstance(n, ast.DictComp) and "__dict__" in ast.unparse(n.generators[0].iter) for n in walk_local(f.node))
        ctx.check(r2, whole or comp, f.qualname, f.loc(), "the pickled state is not the dictionary of the optimizer", path_note(p))
        ctx.check(r2, value != attr("__dict__", me), f.qualname, f.loc(), "the pickled state is the dictionary of the live optimizer, not a copy", path_note(p))
        at = copies[0] if copies else len(p.events)
        for i, e in enumerate(p.events):
            if i < at and e in sets:
                if e.kind == "setattr" and e.data["value"] != NONE:
                    removed.discard(e.data["name"])
                else:
                    removed.add(e.data["name"])
            if i > at and e.kind in ("setitem", "delitem") and e.data["base"] != attr("__dict__", me):
                k = e.data.get("idx")
                if k is not None and is_const(k):
                    removed.add(str(k[2]))
            if i > at and e.kind == "call" and short(e) == "pop" and e.data["args"] and is_const(e.data["args"][0]):
                removed.add(str(e.data["args"][0][2]))
        for n in walk_local(f.node):  # {k: v for k, v in self.__dict__.items() if k != "..."}
            if isinstance(n, ast.DictComp) and "__dict__" in ast.unparse(n.generators[0].iter):
                if isinstance(n.value, ast.IfExp):
                    removed |= {x.value for x in ast.walk(n.value.test) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
                for c in n.generators[0].ifs:
                    if isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.NotEq, ast.NotIn)):
                        removed |= {x.value for x in ast.walk(c) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        if bases:
            ctx.check(r2, "_messaging_thread" in removed, f"{f.qualname}: thread", f.loc(), "the thread is not removed from the pickled state on a path", path_note(p))
        for name in removed - {"_messaging_thread"}:
            ctx.bad(r2, f"{f.qualname}: {name}", f.loc(), f"the attribute {name} is not part of the pickled state", path_note(p))


def check_setstate(ctx: Ctx, r2: str, r3: str, f: FuncInfo, rec: ClassInfo) -> None:
    me: Term = ("param", f.params[0].arg)
    state: Term = ("param", f.params[1].arg)
    replays = 0
    for p in ctx.paths(f, P(max_depth=3, unroll=(0, 1, 2), opaque=CONTRACT | {"put", "norm"}), f.cls):
        ups = [i for i, e in enumerate(p.events) if e.kind == "call" and short(e) == "update" and e.data["recv"] == attr("__dict__", me) and e.data["args"] and e.data["args"][0] == state]
        ups += [i for i, e in enumerate(p.events) if e.kind == "setattr" and e.data["base"] == me and e.data["name"] == "__dict__" and contains(e.data["value"], state)]
        if p.kind == "raise" and not ups:
            continue
        ctx.check(r2, bool(ups), f.qualname, f.loc(), "the state read from the pickle is not restored on a path", path_note(p))
        if p.kind == "raise" or not f.cls.is_subclass_of(rec):  # type: ignore
            continue
        asks = [i for i, e in enumerate(p.events) if is_call(e, "_internal_ask_candidate", "ask") and e.data["recv"] == me]
        puts = [(i, e) for i, e in enumerate(p.events) if is_call(e, "put")]
        for e in p.events:
            if e.kind == "setattr" and e.data["base"] == me and e.data["name"] not in ("_messaging_thread", "_pending_uid", "__dict__"):
                ctx.bad(r2, f"{f.qualname}: {e.data['name']}", f.loc(e.node), f"unpickling changes the attribute {e.data['name']} of the restored state", path_note(p))
        for j, (i, e) in enumerate(puts):
            replays += 1
            v = e.data["args"][0] if e.data["args"] else NONE
            ctx.check(r3, contains(v, attr("replay_archive_tell", me)), f"{f.qualname}: answer", f.loc(e.node), "the answer replayed is not the recorded one", path_note(p))
            ctx.check(r3, sum(1 for a in asks if a < i) == j + 1, f"{f.qualname}: order", f.loc(e.node), "answers are not replayed one by one after the question they answer", path_note(p))
    if f.cls.is_subclass_of(rec):  # type: ignore
        ctx.check(r3, replays > 0, f.qualname, f.loc(), "unpickling never replays the recorded answers to the algorithm")


# ---- dump and load
def dump_load(ctx: Ctx, r4: str) -> None:
    base = ctx.project.module(BASE)
    opt = optimizer(ctx)
    dump = opt.find_method("dump")
    assert dump is not None
    path: Term = ("param", dump.params[1].arg)
    for p in ctx.paths(dump, P(max_depth=3, opaque=CONTRACT - {"dump", "load"}), opt):
        if p.kind == "raise":
            continue
        written = [e for e in p.events if e.kind == "call" and e.data["name"].endswith("pickle.dump") and e.data["args"] and e.data["args"][0] == SELF]
        opened = [e for e in p.events if e.kind == "call" and short(e) == "open" and (contains(e.data["recv"], path) if e.data["recv"] is not None else False or any(contains(a, path) for a in e.data["args"]))]
        modes = [a[2] for e in opened for a in list(e.data["args"]) + [v for _, v in e.data["kwargs"]] if is_const(a) and isinstance(a[2], str)]
        raw = [e for e in p.events if e.kind == "call" and short(e) == "write_bytes" and contains(e.data["recv"], path) and e.data["args"] and contains(e.data["args"][0], SELF)]
        ok = bool(raw) or len(written) == 1 and len(opened) >= 1 and all(set(x) == {"w", "b"} for x in modes) and bool(modes)
        ctx.check(r4, ok, "Optimizer.dump", dump.loc(), "dump does not write the whole optimizer, in binary mode, to the given path", path_note(p))
    loader = base.resolve("load")
    readers = [loader] if isinstance(loader, FuncInfo) else []
    factory = ctx.project.cls(BASE, "ConfiguredOptimizer")
    for c in (opt, factory):
        g = c.find_method("load")
        if g is not None:
            readers.append(g)
    ctx.check(r4, len(readers) >= 2, "load", dump.loc(), "no function loads the optimizers")
    for g in readers:
        for p in ctx.paths(g, P(max_depth=3, assert_raises=True, opaque=CONTRACT - {"dump", "load"}), g.cls):
            if p.kind == "raise":
                continue
            v = p.value
            passed = [e for e in p.events if is_call(e, "load") and e.data["recv"] is not None and e.data["result"] == v and ("param", g.params[1].arg) in e.data["args"]]
            if passed and not any(e.data["name"].endswith("pickle.load") for e in passed):
                ctx.ok(r4, f"{g.qualname} (delegates)")
                continue
            loaded = [e for e in p.events if e.kind == "call" and e.data["name"].endswith(("pickle.load", "pickle.loads"))]
            ctx.check(r4, len(loaded) == 1 and v == loaded[0].data["result"], f"{g.qualname}", g.loc(), "load does not return the object it read", path_note(p))
            tests = [t for t, b in p.conds if b and any(x[0] in ("inst", "call") and contains(x, v) and ("isinstance" in str(x[1]) or x[0] == "inst") and re.search(r"\b(cls|Optimizer|_OptimizerClass)\b", show(x).rsplit(",", 1)[-1]) for x in subterms(t))] if v is not None else []
            ctx.check(r4, bool(tests), f"{g.qualname}: class", g.loc(), "load returns an object whose class was not checked", path_note(p))
