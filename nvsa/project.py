"""Resolved program model of the nevergrad package, built from source with the standard ``ast`` module.

Everything is re-read from the working tree on every run. Names are resolved through imports (absolute, relative,
re-exported), classes through their MRO, and expressions get a light, annotation-driven type."""
from __future__ import annotations

import ast
import builtins
import os
import pathlib
import typing as tp

REPO = pathlib.Path(os.environ.get("NVSA_REPO", "/repo"))
PKG = "nevergrad"


class AnalysisBroken(Exception):
    """An anchor vanished or the analysis cannot be trusted: error exit, never a silent pass."""


class External:
    """A name defined outside of the package (dotted)."""

    __slots__ = ("dotted",)

    def __init__(self, dotted: str) -> None:
        self.dotted = dotted

    def __repr__(self) -> str:
        return f"ext:{self.dotted}"

    def __eq__(self, other: object) -> bool:
        return isinstance(other, External) and other.dotted == self.dotted

    def __hash__(self) -> int:
        return hash(("ext", self.dotted))


class ModVar:
    """Module level variable of the package."""

    def __init__(self, module: "Module", name: str, exprs: tp.List[ast.expr]) -> None:
        self.module, self.name, self.exprs = module, name, exprs

    def __repr__(self) -> str:
        return f"var:{self.module.name}.{self.name}"

    def __eq__(self, other: object) -> bool:
        return isinstance(other, ModVar) and (other.module.name, other.name) == (self.module.name, self.name)

    def __hash__(self) -> int:
        return hash((self.module.name, self.name))


class FuncInfo:
    def __init__(self, module: "Module", node: tp.Any, cls: tp.Optional["ClassInfo"], parent: tp.Optional["FuncInfo"]) -> None:
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        self.name: str = getattr(node, "name", "<lambda>")
        self.local_funcs: tp.Dict[str, "FuncInfo"] = {}
        self.local_classes: tp.Dict[str, "ClassInfo"] = {}
        self._imports: tp.Optional[tp.Dict[str, tp.Tuple[str, tp.Optional[str]]]] = None
        self._locals: tp.Optional[tp.Set[str]] = None

    @property
    def qualname(self) -> str:
        if self.parent is not None:
            return f"{self.parent.qualname}.<locals>.{self.name}"
        return f"{self.cls.name}.{self.name}" if self.cls is not None else self.name

    @property
    def fullname(self) -> str:
        return f"{self.module.name}:{self.qualname}"

    @property
    def params(self) -> tp.List[ast.arg]:
        a = self.node.args
        return a.posonlyargs + a.args + a.kwonlyargs

    @property
    def decorators(self) -> tp.List[str]:
        out = []
        for d in getattr(self.node, "decorator_list", []):
            d = d.func if isinstance(d, ast.Call) else d
            out.append(ast.unparse(d))
        return out

    @property
    def is_static(self) -> bool:
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self) -> bool:
        return "classmethod" in self.decorators

    @property
    def is_property(self) -> bool:
        return any(d in ("property", "functools.cached_property") for d in self.decorators)

    @property
    def is_contextmanager(self) -> bool:
        return any(d.endswith("contextmanager") for d in self.decorators)

    @property
    def is_generator(self) -> bool:
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_local(self.node))

    def loc(self, node: tp.Optional[ast.AST] = None) -> str:
        n = node if node is not None else self.node
        return f"{self.module.relpath}:{getattr(n, 'lineno', '?')}"

    @property
    def imports(self) -> tp.Dict[str, tp.Tuple[str, tp.Optional[str]]]:
        if self._imports is None:
            self._imports = {}
            for n in walk_local(self.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self.module._add_import(n, self._imports)
        return self._imports

    @property
    def locals(self) -> tp.Set[str]:
        """Names bound in this function (parameters, assignments, loops, ...), imports and defs excluded."""
        if self._locals is None:
            out = {a.arg for a in self.params}
            for a in (self.node.args.vararg, self.node.args.kwarg):
                if a is not None:
                    out.add(a.arg)
            glob: tp.Set[str] = set()
            for n in walk_local(self.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
            self._locals = out - glob
        return self._locals

    def __repr__(self) -> str:
        return f"<func {self.fullname}>"


class ClassInfo:
    def __init__(self, module: "Module", node: ast.ClassDef, parent_func: tp.Optional[FuncInfo] = None) -> None:
        self.module, self.node, self.name, self.parent_func = module, node, node.name, parent_func
        self.methods: tp.Dict[str, FuncInfo] = {}
        self.setters: tp.Dict[str, FuncInfo] = {}
        self.deleters: tp.Dict[str, FuncInfo] = {}
        self.class_attrs: tp.Dict[str, tp.Optional[ast.expr]] = {}
        self.class_annotations: tp.Dict[str, ast.expr] = {}
        self.bases: tp.List[tp.Any] = []
        self._mro: tp.Optional[tp.List["ClassInfo"]] = None
        self.subclasses: tp.List["ClassInfo"] = []
        self._attr_ann: tp.Optional[tp.Dict[str, tp.Any]] = None

    @property
    def fullname(self) -> str:
        return f"{self.module.name}:{self.name}"

    @property
    def mro(self) -> tp.List["ClassInfo"]:
        if self._mro is None:
            self._mro = [self]  # recursion guard
            seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassInfo)]
            seqs.append([b for b in self.bases if isinstance(b, ClassInfo)])
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                out.append(cand)
                seqs = [[x for x in s if x is not cand] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    @property
    def external_bases(self) -> tp.List[str]:
        out = []
        for c in self.mro:
            out += [b.dotted for b in c.bases if isinstance(b, External)]
        return out

    def find_method(self, name: str, after: tp.Optional["ClassInfo"] = None) -> tp.Optional[FuncInfo]:
        mro = self.mro
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1 :]
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name: str) -> tp.Optional[FuncInfo]:
        for c in self.mro:
            if name in c.setters:
                return c.setters[name]
            if name in c.methods and not c.methods[name].is_property:
                return None
        return None

    def find_class_attr(self, name: str) -> tp.Tuple[tp.Optional["ClassInfo"], tp.Optional[ast.expr]]:
        for c in self.mro:
            if name in c.class_attrs:
                return c, c.class_attrs[name]
        return None, None

    def is_subclass_of(self, other: "ClassInfo") -> bool:
        return other in self.mro

    def all_subclasses(self) -> tp.List["ClassInfo"]:
        out: tp.List[ClassInfo] = []
        todo = [self]
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo.extend(c.subclasses)
        return out[1:]  # strict subclasses

    def __repr__(self) -> str:
        return f"<class {self.fullname}>"


class Module:
    def __init__(self, project: "Project", name: str, path: pathlib.Path) -> None:
        self.project, self.name, self.path = project, name, path
        self.relpath = str(path.relative_to(project.root))
        self.source = path.read_text(encoding="utf8")
        self.tree = ast.parse(self.source, filename=str(path))
        self.is_pkg = path.name == "__init__.py"
        self.imports: tp.Dict[str, tp.Tuple[str, tp.Optional[str]]] = {}
        self.star_imports: tp.List[str] = []
        self.functions: tp.Dict[str, FuncInfo] = {}
        self.classes: tp.Dict[str, ClassInfo] = {}
        self.variables: tp.Dict[str, tp.List[ast.expr]] = {}
        self.all_functions: tp.List[FuncInfo] = []
        self.all_classes: tp.List[ClassInfo] = []
        for n in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(n):
                ch._nv_parent = n  # type: ignore
        self._collect(self.tree.body)

    # -- imports ---------------------------------------------------------
    def _abs(self, node: ast.ImportFrom) -> str:
        if not node.level:
            return node.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def _add_import(self, node: tp.Union[ast.Import, ast.ImportFrom], out: tp.Dict[str, tp.Tuple[str, tp.Optional[str]]]) -> None:
        if isinstance(node, ast.Import):
            for al in node.names:
                if al.asname:
                    out[al.asname] = (al.name, None)
                else:
                    out[al.name.split(".")[0]] = (al.name.split(".")[0], None)
        else:
            mod = self._abs(node)
            for al in node.names:
                if al.name == "*":
                    self.star_imports.append(mod)
                else:
                    out[al.asname or al.name] = (mod, al.name)

    # -- definitions -----------------------------------------------------
    def _collect(self, body: tp.Sequence[ast.stmt]) -> None:
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self._add_import(st, self.imports)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = self._func(st, None, None)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = self._class(st, None)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for el in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        if isinstance(el, ast.Name):
                            self.variables.setdefault(el.id, []).append(st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.variables.setdefault(st.target.id, [])
                if st.value is not None:
                    self.variables[st.target.id].append(st.value)
            elif isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                self._collect(getattr(st, "body", []))
                self._collect(getattr(st, "orelse", []))
                for h in getattr(st, "handlers", []):
                    self._collect(h.body)
                self._collect(getattr(st, "finalbody", []))

    def _func(self, node: tp.Any, cls: tp.Optional[ClassInfo], parent: tp.Optional[FuncInfo]) -> FuncInfo:
        f = FuncInfo(self, node, cls, parent)
        node._nv_func = f
        self.all_functions.append(f)
        for n in walk_local(node):
            if n is node:
                continue
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f.local_funcs[n.name] = self._func(n, None, f)
            elif isinstance(n, ast.Lambda):
                self._func(n, None, f)
            elif isinstance(n, ast.ClassDef):
                f.local_classes[n.name] = self._class(n, f)
        return f

    def _class(self, node: ast.ClassDef, parent: tp.Optional[FuncInfo]) -> ClassInfo:
        c = ClassInfo(self, node, parent)
        node._nv_class = c  # type: ignore
        self.all_classes.append(c)

        def scan(body: tp.Sequence[ast.stmt]) -> None:
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._func(st, c, None)
                    decs = f.decorators
                    if any(d.endswith(".setter") for d in decs):
                        c.setters[st.name] = f
                    elif any(d.endswith(".deleter") for d in decs):
                        c.deleters[st.name] = f
                    else:
                        c.methods[st.name] = f
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            c.class_attrs[t.id] = st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    c.class_annotations[st.target.id] = st.annotation
                    if st.value is not None:
                        c.class_attrs[st.target.id] = st.value
                elif isinstance(st, (ast.If, ast.Try, ast.With)):
                    scan(st.body)
                    scan(getattr(st, "orelse", []))

        scan(node.body)
        return c

    def resolve(self, name: str, _seen: tp.Optional[tp.Set[tp.Tuple[str, str]]] = None) -> tp.Any:
        seen = _seen if _seen is not None else set()
        if (self.name, name) in seen:
            return None
        seen.add((self.name, name))
        if name in self.functions:
            return self.functions[name]
        if name in self.classes:
            return self.classes[name]
        if name in self.imports:
            mod, attr = self.imports[name]
            return self.project.resolve_import(mod, attr, seen)
        if name in self.variables:
            return ModVar(self, name, self.variables[name])
        for mod in self.star_imports:
            m = self.project.modules.get(mod)
            if m is not None:
                out = m.resolve(name, seen)
                if out is not None:
                    return out
        sub = self.project.modules.get(f"{self.name}.{name}")
        if self.is_pkg and sub is not None:
            return sub
        return None

    def __repr__(self) -> str:
        return f"<module {self.name}>"


def walk_local(node: ast.AST) -> tp.Iterator[ast.AST]:
    """Walks a function body without entering nested functions, lambdas or classes
    (but yields these nodes themselves)."""
    todo: tp.List[ast.AST] = list(ast.iter_child_nodes(node))[::-1]
    yield node
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(list(ast.iter_child_nodes(n))[::-1])


class Project:
    def __init__(self, root: tp.Optional[pathlib.Path] = None) -> None:
        self.root = pathlib.Path(root) if root is not None else REPO
        self.modules: tp.Dict[str, Module] = {}
        base = self.root / PKG
        if not base.is_dir():
            raise AnalysisBroken(f"no package at {base}")
        for path in sorted(base.rglob("*.py")):
            rel = path.relative_to(self.root)
            if path.name.startswith("test_") or path.name.endswith("_test.py") or path.name == "conftest.py":
                continue
            parts = list(rel.with_suffix("").parts)
            if parts[-1] == "__init__":
                parts = parts[:-1]
            try:
                self.modules[".".join(parts)] = Module(self, ".".join(parts), path)
            except SyntaxError as e:
                raise AnalysisBroken(f"cannot parse {rel}: {e}")
        for m in self.modules.values():
            for c in m.all_classes:
                c.bases = [self.resolve_base(c, b) for b in c.node.bases]
        for c in self.classes():
            for b in c.bases:
                if isinstance(b, ClassInfo):
                    b.subclasses.append(c)

    # -- iteration ---------------------------------------------------------
    def classes(self) -> tp.Iterator[ClassInfo]:
        for m in self.modules.values():
            yield from m.all_classes

    def functions(self, prefix: tp.Union[str, tp.Tuple[str, ...]] = "") -> tp.Iterator[FuncInfo]:
        for m in self.modules.values():
            if m.name.startswith(prefix):
                yield from m.all_functions

    def module(self, name: str) -> Module:
        if name not in self.modules:
            raise AnalysisBroken(f"module {name} not found")
        return self.modules[name]

    def cls(self, module: str, name: str) -> ClassInfo:
        """Class, looked up in its module then (if it was moved) anywhere it is re-exported from."""
        m = self.module(module)
        ent = m.resolve(name)
        if isinstance(ent, ClassInfo):
            return ent
        for c in m.all_classes:
            if c.name == name:
                return c
        found = [c for c in self.classes() if c.name == name]
        if len(found) == 1:
            return found[0]
        raise AnalysisBroken(f"class {name} not found in {module}")

    def method(self, module: str, cls: str, name: str) -> FuncInfo:
        f = self.cls(module, cls).find_method(name)
        if f is None:
            raise AnalysisBroken(f"method {cls}.{name} not found in {module}")
        return f

    def func(self, module: str, name: str) -> FuncInfo:
        ent = self.module(module).resolve(name)
        if isinstance(ent, FuncInfo):
            return ent
        raise AnalysisBroken(f"function {name} not found in {module}")

    # -- resolution ----------------------------------------------------------
    def resolve_import(self, mod: str, attr: tp.Optional[str], seen: tp.Any = None) -> tp.Any:
        if attr is None:
            return self.modules.get(mod) or External(mod)
        m = self.modules.get(mod)
        if m is not None:
            out = m.resolve(attr, seen)
            if out is not None:
                return out
            sub = self.modules.get(f"{mod}.{attr}")
            if sub is not None:
                return sub
            return External(f"{mod}.{attr}")
        sub = self.modules.get(f"{mod}.{attr}")
        return sub if sub is not None else External(f"{mod}.{attr}")

    def resolve_base(self, c: ClassInfo, expr: ast.expr) -> tp.Any:
        if isinstance(expr, ast.Subscript):
            expr = expr.value
        return self.resolve_expr(expr, c.module, c.parent_func)

    def member(self, ent: tp.Any, attr: str) -> tp.Any:
        if isinstance(ent, Module):
            out = ent.resolve(attr)
            if out is None:
                out = self.modules.get(f"{ent.name}.{attr}")
            return out
        if isinstance(ent, External):
            return External(f"{ent.dotted}.{attr}")
        if isinstance(ent, ClassInfo):
            m = ent.find_method(attr)
            if m is not None:
                return m
            return None
        if isinstance(ent, ModVar) and len(ent.exprs) == 1:
            val = self.resolve_expr(ent.exprs[0], ent.module, None)
            if isinstance(val, (Module, External)):
                return self.member(val, attr)
        return None

    def resolve_expr(self, expr: ast.expr, module: Module, func: tp.Optional[FuncInfo] = None) -> tp.Any:
        """Resolves a (dotted) name to a project entity or an External; None if it is a local or unknown."""
        if isinstance(expr, ast.Name):
            f = func
            while f is not None:
                if expr.id in f.imports:
                    return self.resolve_import(*f.imports[expr.id])
                if expr.id in f.local_funcs:
                    return f.local_funcs[expr.id]
                if expr.id in f.local_classes:
                    return f.local_classes[expr.id]
                if expr.id in f.locals:
                    return None
                f = f.parent
            out = module.resolve(expr.id)
            if out is None and hasattr(builtins, expr.id):
                return External(f"builtins.{expr.id}")
            return out
        if isinstance(expr, ast.Attribute):
            base = self.resolve_expr(expr.value, module, func)
            return None if base is None else self.member(base, expr.attr)
        return None

    # -- light types ----------------------------------------------------------
    # a type is: ClassInfo | External | ("list", T) | ("dict", T) | ("tuple", T) | ("type", T) | None
    def type_from_annotation(self, ann: tp.Optional[ast.expr], module: Module, func: tp.Optional[FuncInfo] = None, cls: tp.Optional[ClassInfo] = None) -> tp.Any:
        if ann is None:
            return None
        if isinstance(ann, ast.Constant):
            if isinstance(ann.value, str):
                try:
                    return self.type_from_annotation(ast.parse(ann.value, mode="eval").body, module, func, cls)
                except SyntaxError:
                    return None
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self._union([self.type_from_annotation(x, module, func, cls) for x in (ann.left, ann.right)])
        if isinstance(ann, ast.Subscript):
            head = self.resolve_expr(ann.value, module, func)
            name = head.dotted.rsplit(".", 1)[-1] if isinstance(head, External) else (ann.value.attr if isinstance(ann.value, ast.Attribute) else getattr(ann.value, "id", ""))
            args = list(ann.slice.elts) if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            sub = [self.type_from_annotation(a, module, func, cls) for a in args]
            if isinstance(head, ClassInfo):
                return head
            if name in ("Optional", "Union", "Final", "ClassVar", "Annotated"):
                return self._union(sub)
            if name in ("List", "list", "Set", "set", "Deque", "deque", "Iterable", "Sequence", "Iterator", "Generator", "FrozenSet"):
                return ("list", sub[0] if sub else None)
            if name in ("Dict", "dict", "Mapping", "OrderedDict", "DefaultDict", "defaultdict", "MutableMapping"):
                return ("dict", sub[1] if len(sub) > 1 else None)
            if name in ("Tuple", "tuple"):
                return ("tuple", tuple(sub))
            if name in ("Type", "type"):
                return ("type", sub[0] if sub else None)
            return head if isinstance(head, (ClassInfo, External)) else None
        ent = self.resolve_expr(ann, module, func)
        if isinstance(ent, ClassInfo):
            return ent
        if isinstance(ent, ModVar) and len(ent.exprs) == 1:
            ex = ent.exprs[0]
            if isinstance(ex, ast.Call):
                h = self.resolve_expr(ex.func, ent.module)
                if isinstance(h, External) and h.dotted.endswith("TypeVar"):
                    for kw in ex.keywords:
                        if kw.arg == "bound":
                            return self.type_from_annotation(kw.value, ent.module)
                    return None
                return None
            return self.type_from_annotation(ex, ent.module)
        if isinstance(ent, External):
            return ent
        return None

    @staticmethod
    def _union(types: tp.List[tp.Any]) -> tp.Any:
        types = [t for t in types if t is not None and not (isinstance(t, External) and t.dotted in ("builtins.None",))]
        classes = [t for t in types if isinstance(t, ClassInfo)]
        if len(classes) == 1:
            return classes[0]
        if len(types) == 1:
            return types[0]
        return None

    def attr_type(self, cls: ClassInfo, attr: str) -> tp.Any:
        for c in cls.mro:
            ann = self._class_attr_types(c)
            if attr in ann:
                return ann[attr]
            m = c.methods.get(attr)
            if m is not None and m.is_property:
                return self.type_from_annotation(m.node.returns, c.module, m, c)
        return None

    def _class_attr_types(self, c: ClassInfo) -> tp.Dict[str, tp.Any]:
        if c._attr_ann is None:
            c._attr_ann = {}
            weak: tp.Dict[str, tp.Any] = {}
            for name, ann in c.class_annotations.items():
                t = self.type_from_annotation(ann, c.module, None, c)
                if t is not None:
                    c._attr_ann[name] = t
            for f in list(c.methods.values()) + list(c.setters.values()):
                if not f.params:
                    continue
                selfname = f.params[0].arg
                for n in walk_local(f.node):
                    tgt, val, ann2 = None, None, None
                    if isinstance(n, ast.AnnAssign):
                        tgt, val, ann2 = n.target, n.value, n.annotation
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == selfname:
                        if ann2 is not None:
                            t = self.type_from_annotation(ann2, c.module, f, c)
                            if t is not None:
                                c._attr_ann.setdefault(tgt.attr, t)
                        elif val is not None and tgt.attr not in weak:
                            t = self.expr_type(val, f, cls=c)
                            if t is not None:
                                weak[tgt.attr] = t
            for k, v in weak.items():
                c._attr_ann.setdefault(k, v)
        return c._attr_ann

    def return_type(self, f: FuncInfo, cls: tp.Optional[ClassInfo] = None) -> tp.Any:
        ann = f.node.returns if not isinstance(f.node, ast.Lambda) else None
        t = self.type_from_annotation(ann, f.module, f, f.cls)
        if cls is not None and f.cls is not None and f.params and f.params[0].annotation is not None and ann is not None:
            if ast.dump(f.params[0].annotation) == ast.dump(ann):  # self: P -> P
                return cls
        return t

    def expr_type(self, expr: ast.expr, func: tp.Optional[FuncInfo], cls: tp.Optional[ClassInfo] = None, env: tp.Optional[tp.Dict[str, tp.Any]] = None, depth: int = 0) -> tp.Any:
        """Flow-insensitive type of an expression inside a function."""
        if depth > 6:
            return None
        module = func.module if func is not None else (cls.module if cls is not None else None)
        if module is None:
            return None
        cls = cls if cls is not None else (func.cls if func is not None else None)
        if isinstance(expr, ast.Name):
            if env and expr.id in env:
                return env[expr.id]
            f = func
            while f is not None:
                if expr.id in f.locals:
                    return self._local_type(expr.id, f, cls if f.cls is not None else f.cls, depth)
                f = f.parent
            ent = self.resolve_expr(expr, module, func)
            if isinstance(ent, ClassInfo):
                return ("type", ent)
            if isinstance(ent, ModVar):
                for e in ent.exprs:
                    t = self._modvar_type(ent, e, depth)
                    if t is not None:
                        return t
            return None
        if isinstance(expr, ast.Attribute):
            ent = self.resolve_expr(expr, module, func)
            if isinstance(ent, ClassInfo):
                return ("type", ent)
            base = self.expr_type(expr.value, func, cls, env, depth + 1)
            if isinstance(base, ClassInfo):
                return self.attr_type(base, expr.attr)
            return None
        if isinstance(expr, ast.Call):
            if isinstance(expr.func, ast.Name) and expr.func.id == "super":
                return ("super", func.cls if func is not None else None)
            ent = self.resolve_expr(expr.func, module, func)
            if isinstance(ent, ClassInfo):
                return ent
            if isinstance(ent, FuncInfo) and not (isinstance(expr.func, ast.Attribute) and ent.cls is not None and not ent.is_static):
                return self.return_type(ent)
            if isinstance(expr.func, ast.Attribute):
                base = self.expr_type(expr.func.value, func, cls, env, depth + 1)
                if isinstance(base, tuple) and base[0] == "super" and base[1] is not None:
                    m = base[1].find_method(expr.func.attr, after=base[1])
                    return self.return_type(m, base[1]) if m is not None else None
                if isinstance(base, ClassInfo):
                    m = base.find_method(expr.func.attr)
                    if m is not None:
                        return self.return_type(m, base)
                if isinstance(base, tuple) and base[0] == "dict" and expr.func.attr in ("get", "pop", "setdefault"):
                    return base[1]
                if isinstance(base, tuple) and base[0] == "dict" and expr.func.attr == "values":
                    return ("list", base[1])
                if isinstance(base, tuple) and base[0] == "dict" and expr.func.attr == "items":
                    return ("list", ("tuple", (None, base[1])))
                if isinstance(base, tuple) and base[0] == "list" and expr.func.attr in ("pop", "popleft"):
                    return base[1]
            ft = self.expr_type(expr.func, func, cls, env, depth + 1)
            if isinstance(ft, tuple) and ft[0] == "type":
                return ft[1]
            return None
        if isinstance(expr, ast.Subscript):
            base = self.expr_type(expr.value, func, cls, env, depth + 1)
            if isinstance(base, tuple) and base[0] in ("list", "dict"):
                if isinstance(expr.slice, ast.Slice):
                    return base
                return base[1]
            if isinstance(base, tuple) and base[0] == "tuple" and isinstance(expr.slice, ast.Constant) and isinstance(expr.slice.value, int):
                try:
                    return base[1][expr.slice.value]
                except IndexError:
                    return None
            return None
        if isinstance(expr, ast.IfExp):
            return self._union([self.expr_type(e, func, cls, env, depth + 1) for e in (expr.body, expr.orelse)])
        if isinstance(expr, ast.List):
            ts = [self.expr_type(e, func, cls, env, depth + 1) for e in expr.elts[:1]]
            return ("list", ts[0] if ts else None)
        if isinstance(expr, ast.ListComp):
            return ("list", None)
        if isinstance(expr, (ast.Dict, ast.DictComp)):
            return ("dict", None)
        return None

    def _modvar_type(self, var: ModVar, e: ast.expr, depth: int) -> tp.Any:
        if isinstance(e, ast.Call):
            ent = self.resolve_expr(e.func, var.module)
            if isinstance(ent, ClassInfo):
                return ent
            if isinstance(e.func, ast.Attribute):  # ex: ConfPSO(...).set_name(...)
                inner = self._modvar_type(var, e.func.value, depth + 1)
                if isinstance(inner, ClassInfo):
                    m = inner.find_method(e.func.attr)
                    if m is not None:
                        t = self.return_type(m, inner)
                        return inner if isinstance(t, ClassInfo) and inner.is_subclass_of(t) else t
        if isinstance(e, (ast.Name, ast.Attribute)):
            ent = self.resolve_expr(e, var.module)
            if isinstance(ent, ClassInfo):
                return ("type", ent)
            if isinstance(ent, ModVar) and ent != var and depth < 6:
                for x in ent.exprs:
                    return self._modvar_type(ent, x, depth + 1)
        return None

    def _local_type(self, name: str, f: FuncInfo, cls: tp.Optional[ClassInfo], depth: int) -> tp.Any:
        for i, a in enumerate(f.params):
            if a.arg == name:
                if i == 0 and f.cls is not None and not f.is_static:
                    return ("type", cls or f.cls) if f.is_classmethod else (cls or f.cls)
                t = self.type_from_annotation(a.annotation, f.module, f, cls)
                if t is not None:
                    return t
        types: tp.List[tp.Any] = []
        for n in walk_local(f.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                t = self.type_from_annotation(n.annotation, f.module, f, cls)
                if t is not None:
                    return t
                if n.value is not None:
                    types.append(self.expr_type(n.value, f, cls, None, depth + 1))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        types.append(self.expr_type(n.value, f, cls, None, depth + 1))
            elif isinstance(n, (ast.For, ast.comprehension)):
                types += self._loop_type(n.target, n.iter, name, f, cls, depth)
            elif isinstance(n, ast.With):
                for it in n.items:
                    if isinstance(it.optional_vars, ast.Name) and it.optional_vars.id == name:
                        types.append(self.expr_type(it.context_expr, f, cls, None, depth + 1))
        return self._union(list({id(t): t for t in types if t is not None}.values()))

    def _loop_type(self, target: ast.expr, it: ast.expr, name: str, f: FuncInfo, cls: tp.Optional[ClassInfo], depth: int) -> tp.List[tp.Any]:
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("list", "sorted", "reversed", "tuple", "set") and it.args:
            return self._loop_type(target, it.args[0], name, f, cls, depth)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args:
            if isinstance(target, ast.Tuple) and len(target.elts) == 2:
                return self._loop_type(target.elts[1], it.args[0], name, f, cls, depth)
            return []
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and isinstance(target, ast.Tuple):
            out: tp.List[tp.Any] = []
            for el, arg in zip(target.elts, it.args):
                out += self._loop_type(el, arg, name, f, cls, depth)
            return out
        if isinstance(target, ast.Name) and target.id == name:
            t = self.expr_type(it, f, cls, None, depth + 1)
            if isinstance(t, tuple) and t[0] == "list":
                return [t[1]]
        if isinstance(target, ast.Tuple):
            t = self.expr_type(it, f, cls, None, depth + 1)
            if isinstance(t, tuple) and t[0] == "list" and isinstance(t[1], tuple) and t[1][0] == "tuple":
                for el, st in zip(target.elts, t[1][1]):
                    if isinstance(el, ast.Name) and el.id == name:
                        return [st]
        return []

    # -- call targets -----------------------------------------------------------
    def call_target(self, call: ast.Call, func: FuncInfo, cls: tp.Optional[ClassInfo] = None) -> tp.Any:
        """Resolved callee: FuncInfo | ClassInfo | External | ModVar | None."""
        ent = self.resolve_expr(call.func, func.module, func)
        if ent is not None:
            return ent
        if isinstance(call.func, ast.Attribute):
            base = self.expr_type(call.func.value, func, cls)
            if isinstance(base, tuple) and base[0] == "super" and base[1] is not None:
                return base[1].find_method(call.func.attr, after=base[1])
            if isinstance(base, tuple) and base[0] == "type" and isinstance(base[1], ClassInfo):
                base = base[1]
            if isinstance(base, ClassInfo):
                return base.find_method(call.func.attr)
            if isinstance(base, External):
                return External(f"{base.dotted}.{call.func.attr}")
        return None
