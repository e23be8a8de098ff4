"""Configuration options reach the algorithm and names identify it."""
from __future__ import annotations

import math

from .common import *

TECHNIQUE = "def-use analysis of every configuration option from the factory's signature to its effective uses in the algorithm, plus a whole-package table of registered names and path analysis of the factory and registry mechanics"
EXPLANATION = (
    "For every configurable optimizer, each option of the factory is followed into the algorithm: the algorithm takes it by name with an equal default (or the factory stores it, unswapped, under its own name and the algorithm "
    "reads it), and at least one of its uses has an effect (not only an assertion, a warning or an overwritten variable). Accepted values of an option are "
    "told apart by the algorithm. Every name registered equals the name of the object it denotes and is neither registered twice nor rebound. The factory and the registry pass on all the options, name the optimizer and refuse duplicates, on every path."
)


def enclosing(n: ast.AST) -> tp.Optional[FuncInfo]:
    cur: tp.Any = getattr(n, "_nv_parent", None)
    while cur is not None:
        if isinstance(cur, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return getattr(cur, "_nv_func", None)
        cur = getattr(cur, "_nv_parent", None)
    return None


def parent(n: ast.AST) -> tp.Any:
    return getattr(n, "_nv_parent", None)


def inert(body: tp.Sequence[ast.stmt]) -> bool:
    """Only checks: raises, warnings, assertions, logging."""
    for st in body:
        if isinstance(st, (ast.Raise, ast.Assert, ast.Pass)):
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            text = ast.unparse(st.value.func)
            if text in ("print", "warnings.warn") or text.split(".")[0] in ("logger", "logging"):
                continue
        if isinstance(st, ast.If) and inert(st.body) and inert(st.orelse):
            continue
        return False
    return True


def same(a: tp.Optional[ast.expr], b: tp.Optional[ast.expr]) -> bool:
    if a is None or b is None:
        return a is b
    if ast.dump(a) == ast.dump(b):
        return True
    va, vb = fold(a), fold(b)
    return va is not None and vb is not None and va == vb and isinstance(va, bool) == isinstance(vb, bool)


def fold(e: ast.expr) -> tp.Any:
    if isinstance(e, ast.Constant):
        return e.value if e.value is not None else None
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = fold(e.operand)
        return None if v is None else -v
    if isinstance(e, ast.BinOp):
        x, y = fold(e.left), fold(e.right)
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            try:
                ops = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.Div: lambda: x / y, ast.Pow: lambda: x**y}
                return ops[type(e.op)]() if type(e.op) in ops else None
            except (ArithmeticError, OverflowError):
                return None
    if isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords:
        v = fold(e.args[0])
        name = ast.unparse(e.func).split(".")[-1]
        if isinstance(v, (int, float)) and name in ("log", "sqrt", "exp", "float", "int"):
            try:
                return {"float": float, "int": int}[name](v) if name in ("float", "int") else getattr(math, name)(v)
            except (ValueError, OverflowError):
                return None
    if isinstance(e, (ast.Tuple, ast.List)):
        vals = [fold(x) for x in e.elts]
        return None if any(v is None for v in vals) else tuple(vals)
    return None


def defaults(f: FuncInfo) -> tp.Dict[str, tp.Optional[ast.expr]]:
    a = f.node.args
    out: tp.Dict[str, tp.Optional[ast.expr]] = {}
    pos = a.posonlyargs + a.args
    ds: tp.List[tp.Optional[ast.expr]] = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    for p, d in list(zip(pos, ds)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        out[p.arg] = d
    return out


class Uses:
    """Effective uses of parameters and attributes."""

    def __init__(self, ctx: Ctx, factory: ClassInfo) -> None:
        self.ctx, self.project, self.factory = ctx, ctx.project, factory
        self.by_attr: tp.Dict[str, tp.List[tp.Tuple[FuncInfo, ast.Attribute]]] = {}
        for f in self.project.functions("nevergrad."):
            for n in walk_local(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.by_attr.setdefault(n.attr, []).append((f, n))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                        fake = ast.Attribute(value=n.args[0], attr=n.args[1].value, ctx=ast.Load())
                        fake._nv_parent = parent(n)  # type: ignore
                        self.by_attr.setdefault(fake.attr, []).append((f, fake))

    def family(self, f: FuncInfo, cls: ClassInfo) -> bool:
        c = f.cls
        g: tp.Any = f
        while c is None and g is not None:
            c, g = g.cls, g.parent
        return c is not None and (cls.is_subclass_of(c) or c.is_subclass_of(cls))

    # ---- loads
    def param_loads(self, f: FuncInfo, name: str) -> tp.List[tp.Tuple[FuncInfo, ast.AST]]:
        out: tp.List[tp.Tuple[FuncInfo, ast.AST]] = []
        killed = self.kill(f, lambda t: isinstance(t, ast.Name) and t.id == name, lambda e: self.mentions(e, name))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                if n in list(ast.walk(f.node.args)):
                    continue
                if killed is not None and self.top_index(f, n) > killed:
                    continue
                out.append((f, n))
        return out

    def attr_loads(self, cls: ClassInfo, name: str) -> tp.List[tp.Tuple[FuncInfo, ast.AST]]:
        out: tp.List[tp.Tuple[FuncInfo, ast.AST]] = []
        for f, n in self.by_attr.get(name, []):
            base = n.value
            if isinstance(base, ast.Name) and f.cls is not None and f.params and base.id == f.params[0].arg and not f.is_static:
                if not self.family(f, cls):
                    continue
            elif isinstance(base, ast.Attribute) and base.attr.endswith("config") or isinstance(base, ast.Name) and base.id.endswith("config"):
                continue
            out.append((f, n))
        return out

    @staticmethod
    def mentions(e: ast.AST, name: str) -> bool:
        return any(isinstance(x, ast.Name) and x.id == name or isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(e))

    @staticmethod
    def top_index(f: FuncInfo, n: ast.AST) -> int:
        cur: tp.Any = n
        while parent(cur) is not None and parent(cur) is not f.node:
            cur = parent(cur)
        return f.node.body.index(cur) if cur in f.node.body else -1

    def kill(self, f: FuncInfo, is_target: tp.Callable[[ast.AST], bool], mentions: tp.Callable[[ast.AST], bool]) -> tp.Optional[int]:
        """Index of the first top-level statement which overwrites the variable with something unrelated."""
        for i, st in enumerate(f.node.body):
            if isinstance(st, ast.Assign) and any(is_target(t) for t in st.targets) and not mentions(st.value):
                return i
            if isinstance(st, ast.AnnAssign) and st.value is not None and is_target(st.target) and not mentions(st.value):
                return i
        return None

    # ---- effect of one load
    def effective(self, f: FuncInfo, n: ast.AST, name: str, cls: tp.Optional[ClassInfo], seen: tp.FrozenSet[tp.Any]) -> bool:
        cur: tp.Any = n
        while True:
            par = parent(cur)
            if par is None or isinstance(par, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)):
                return True
            if isinstance(par, ast.Assert) or isinstance(par, ast.JoinedStr) or isinstance(par, ast.Raise):
                return False
            if isinstance(par, ast.Expr):
                return isinstance(par.value, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await)) and cur is par.value and cur is not n
            if isinstance(par, ast.If) and cur is par.test:
                if inert(par.body) and inert(par.orelse):
                    return False
                return [ast.dump(x) for x in par.body] != [ast.dump(x) for x in par.orelse]
            if isinstance(par, ast.IfExp) and cur is par.test and ast.dump(par.body) == ast.dump(par.orelse):
                return False
            if isinstance(par, ast.Call) and cur is not par.func:
                text = ast.unparse(par.func)
                if text in ("warnings.warn", "print", "isinstance_check") or text.split(".")[0] in ("logger", "logging"):
                    return False
                hit = self.passed(f, par, cur, cls, seen)
                if hit is not None:
                    return hit
            if isinstance(par, (ast.Assign, ast.AnnAssign)) and cur is par.value:
                targets = par.targets if isinstance(par, ast.Assign) else [par.target]
                out = False
                for t in targets:
                    if isinstance(t, ast.Name):
                        key = (id(f.node), t.id)
                        if key in seen:
                            continue
                        if t.id == name and any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(par.value)):
                            continue  # self-update: judged by the other loads
                        loads = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load)]
                        out = out or any(self.effective(enclosing(x) or f, x, t.id, cls, seen | {key}) for x in loads)
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and f.params and t.value.id == f.params[0].arg and cls is not None:
                        key = ("attr", t.attr)
                        if key in seen:
                            continue
                        out = out or self.attr_effective(cls, t.attr, f, par, seen | {key})
                    else:
                        return True
                return out
            cur = par

    def attr_effective(self, cls: ClassInfo, name: str, f: FuncInfo, st: ast.AST, seen: tp.FrozenSet[tp.Any]) -> bool:
        at = self.top_index(f, st)
        # overwritten by an unrelated value later in the same function
        for later in f.node.body[at + 1 :]:
            targets = later.targets if isinstance(later, ast.Assign) else [later.target] if isinstance(later, ast.AnnAssign) and later.value is not None else []
            if any(isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == f.params[0].arg for t in targets):
                value = later.value  # type: ignore
                source = {x.id for x in ast.walk(st) if isinstance(x, ast.Name)} | {name}
                if not any(self.mentions(value, s) for s in source if s != f.params[0].arg):
                    between = f.node.body[at + 1 : f.node.body.index(later)]
                    if not any(isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Load) for b in between for x in ast.walk(b)):
                        return False
        return any(self.effective(g, x, name, cls, seen) for g, x in self.attr_loads(cls, name))

    def passed(self, f: FuncInfo, call: ast.Call, a: ast.AST, cls: tp.Optional[ClassInfo], seen: tp.FrozenSet[tp.Any]) -> tp.Optional[bool]:
        """Effect of an argument of a resolved call; None when unknown (the call's result decides)."""
        t = self.project.call_target(call, f)
        new_cls: tp.Optional[ClassInfo] = None
        if isinstance(t, ClassInfo):
            new_cls = t
            t = t.find_method("__init__")
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Call) and ast.unparse(call.func.value.func) == "super" and isinstance(t, FuncInfo):
            new_cls = cls
        if not isinstance(t, FuncInfo) or len(seen) > 12:
            return None
        par = parent(a)
        names = [p.arg for p in t.params]
        if isinstance(par, ast.keyword) or isinstance(a, ast.keyword):
            kw = a if isinstance(a, ast.keyword) else par
            name = kw.arg
        elif isinstance(a, ast.expr) and a in call.args and not any(isinstance(x, ast.Starred) for x in call.args):
            i = call.args.index(a) + (1 if t.cls is not None and not t.is_static else 0)
            name = names[i] if i < len(names) else None
        else:
            return None
        if name is None or name not in names + [x.arg for x in t.node.args.kwonlyargs]:
            return None
        key = (id(t.node), name)
        if key in seen:
            return False
        if new_cls is not None and self.factory in new_cls.mro:
            return True  # the option of another factory, judged there
        loads = self.param_loads(t, name)
        hit = any(self.effective(g, x, name, new_cls or cls, seen | {key}) for g, x in loads)
        if hit or new_cls is not None or t.node.name == "__init__":
            return hit
        return hit


def accepted(f: FuncInfo, name: str) -> tp.Optional[tp.Tuple[tp.Set[str], ast.AST]]:
    """The string values an option may take, when the function checks them."""
    for n in walk_local(f.node):
        if isinstance(n, ast.Assert):
            test, positive = n.test, True
        elif isinstance(n, ast.If) and n.body and all(isinstance(x, ast.Raise) for x in n.body):
            test, positive = n.test, False
        else:
            continue
        tests = test.values if isinstance(test, ast.BoolOp) else [test]
        for t in tests:
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, pos = t.operand, not positive
            else:
                pos = positive
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == name):
                continue
            if isinstance(t.ops[0], ast.In if pos else ast.NotIn) and isinstance(t.comparators[0], (ast.List, ast.Tuple, ast.Set)):
                vals = [x.value for x in t.comparators[0].elts if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                if isinstance(test, ast.BoolOp):
                    for other in tests:
                        if isinstance(other, ast.Compare) and isinstance(other.ops[0], (ast.Eq, ast.NotEq)) and isinstance(other.comparators[0], ast.Constant) and isinstance(other.comparators[0].value, str):
                            vals.append(other.comparators[0].value)
                return set(vals), n
    return None


def super_init(f: FuncInfo) -> tp.List[ast.Call]:
    return [
        n for n in walk_local(f.node)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and isinstance(n.func.value, ast.Call) and ast.unparse(n.func.value.func) == "super"
    ]


def bind(call: ast.Call, names: tp.List[str]) -> tp.Dict[str, ast.expr]:
    out = dict(zip(names, call.args))
    out.update({k.arg: k.value for k in call.keywords if k.arg is not None})
    return out


def local_values(f: FuncInfo, name: str) -> tp.List[ast.expr]:
    out = []
    for n in walk_local(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            out.append(n.value)
        elif isinstance(n, ast.Assign):
            for t in n.targets:  # a, b = x, y
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                    out += [v for x, v in zip(t.elts, n.value.elts) if isinstance(x, ast.Name) and x.id == name]
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
            out.append(n.value)
    return out


def is_locals(e: ast.expr, f: FuncInfo) -> bool:
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "locals":
        return True
    if isinstance(e, ast.Name):
        vals = local_values(f, e.id)
        return bool(vals) and all(is_locals(v, f) for v in vals)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and len(e.args) == 1 and not e.keywords:
        return is_locals(e.args[0], f)
    return False


def config_loads(uses: Uses, cls: ClassInfo, name: str) -> tp.List[tp.Tuple[FuncInfo, ast.AST]]:
    """Reads of an option from the factory given as `config` to the algorithm."""
    attrs: tp.Set[str] = set()
    family = [c for c in cls.mro] + cls.all_subclasses()
    for c in family:
        for f in c.methods.values():
            for n in walk_local(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    src = any(isinstance(x, ast.Name) and x.id == "config" for x in ast.walk(n.value))
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if src and isinstance(t, ast.Attribute) and not any(isinstance(x, ast.Attribute) and x.value is not None and isinstance(x.value, ast.Name) and x.value.id == "config" for x in ast.walk(n.value)):
                            attrs.add(t.attr)

    def is_config(e: ast.expr, f: FuncInfo, depth: int = 0) -> bool:
        if isinstance(e, ast.Attribute):
            return e.attr in attrs
        if isinstance(e, ast.Name):
            if e.id == "config":
                return True
            g: tp.Any = f
            while g is not None:
                vals = local_values(g, e.id)
                if vals:
                    return depth < 4 and any(is_config(v, g, depth + 1) for v in vals)
                g = g.parent
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "config":
            return is_config(e.func.value, f, depth)
        if isinstance(e, ast.IfExp):
            return is_config(e.body, f, depth) or is_config(e.orelse, f, depth)
        return False

    out: tp.List[tp.Tuple[FuncInfo, ast.AST]] = []
    for f, n in uses.by_attr.get(name, []):
        if is_config(n.value, f):
            out.append((f, n))
    for c in family:
        for f in c.methods.values():
            for n in walk_local(f.node):
                if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == name and is_config(n.value, f):
                    out.append((f, n))
    return out


def distinguished(uses: Uses, loads: tp.Sequence[tp.Tuple[FuncInfo, ast.AST]], cls: ClassInfo, seen: tp.Set[tp.Any]) -> tp.Tuple[tp.Dict[str, ast.AST], bool]:
    """String values an option is compared with in the algorithm; whether its value is also handed on as a whole."""
    values: tp.Dict[str, ast.AST] = {}
    whole = False
    for f, n in loads:
        par = parent(n)
        if isinstance(par, ast.Compare) and len(par.ops) == 1:
            sides = [par.comparators[0]] if par.left is n else [par.left]
            lits = [x for s in sides for x in (s.elts if isinstance(s, (ast.List, ast.Tuple, ast.Set)) else [s])]
            strs = [x.value for x in lits if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            if len(strs) != len(lits) and not all(isinstance(x, ast.Constant) for x in lits):
                whole = True
            if par.left is not n and isinstance(par.ops[0], (ast.In, ast.NotIn)):
                whole = True  # substring test of the option
            values.update({s: par for s in strs})
        elif isinstance(par, (ast.Assign, ast.AnnAssign)) and par.value is n:
            for t in par.targets if isinstance(par, ast.Assign) else [par.target]:
                if isinstance(t, ast.Name):
                    key: tp.Any = (id(f.node), t.id)
                    nxt = [(f, x) for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load)]
                elif isinstance(t, ast.Attribute):
                    key, nxt = t.attr, uses.attr_loads(cls, t.attr)
                else:
                    whole = True
                    continue
                if key not in seen:
                    v, w = distinguished(uses, nxt, cls, seen | {key})
                    values.update(v)
                    whole = whole or w
        elif isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id == "isinstance":
            continue
        elif isinstance(par, (ast.If, ast.BoolOp, ast.UnaryOp)):
            continue
        else:
            whole = True
    return values, whole


def check_factory(ctx: Ctx, F: ClassInfo, base_init: FuncInfo, uses: Uses, rules: tp.Dict[str, str]) -> None:
    f = F.methods.get("__init__")
    if f is None:
        return
    ctx.seen(f)
    calls = super_init(f)
    if len(calls) != 1:
        ctx.bad(rules["deliver"], f.fullname, f.loc(), f"{len(calls)} calls of the base constructor instead of one: the options are not handed to the algorithm")
        return
    call = calls[0]
    b = bind(call, ["OptimizerClass", "config", "as_config"])
    options = {k: d for k, d in defaults(f).items() if k != f.params[0].arg}
    for o in options:
        check_replaced(ctx, f, o, f"{F.fullname} option {o}", rules)
    cfg = b.get("config")
    if cfg is None or not is_locals(cfg, f):
        # an explicit dictionary: each option must be in it, under its own name
        entries: tp.Dict[str, ast.expr] = {}
        src = cfg
        if isinstance(cfg, ast.Name) and len(local_values(f, cfg.id)) == 1:
            src = local_values(f, cfg.id)[0]
        if isinstance(src, ast.Dict):
            entries = {k.value: v for k, v in zip(src.keys, src.values) if isinstance(k, ast.Constant)}
        elif isinstance(src, ast.Call) and ast.unparse(src.func) == "dict":
            entries = {k.arg: k.value for k in src.keywords if k.arg}
        for o in options:
            good = o in entries and uses.mentions(entries[o], o)
            ctx.check(rules["deliver"], good, f"{F.fullname} option {o}", f.loc(call), f"option {o} of {F.node.name} is not in the configuration handed to the algorithm under its own name")
    as_config = b.get("as_config")
    as_conf = isinstance(as_config, ast.Constant) and as_config.value is True
    target: tp.Any = ctx.project.resolve_expr(b["OptimizerClass"], f.module, f) if "OptimizerClass" in b else None
    if not isinstance(target, ClassInfo) or uses.factory in target.mro:
        # the algorithm is itself a factory built here from the options
        for o in options:
            loads = [x for x in uses.param_loads(f, o)]
            good = any(uses.effective(g, n, o, F, frozenset()) for g, n in loads)
            ctx.check(rules["used"], good, f"{F.fullname} option {o}", f.loc(), f"option {o} of {F.node.name} is accepted but has no effect on the optimizer which is built")
        return
    init = target.find_method("__init__")
    if init is None:
        ctx.bad(rules["deliver"], F.fullname, f.loc(), f"{target.node.name} has no constructor which takes the options")
        return
    if as_conf:
        stored: tp.Dict[str, tp.List[ast.expr]] = {}
        for n in walk_local(f.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.params[0].arg:
                        stored.setdefault(t.attr, []).append(n.value)
        for name in stored:
            if name in options:
                continue
            # stored under another name: fine when the algorithm reads it, judged through the option below
        initdef = defaults(init).get("config")
        ctx.check(rules["deliver"], "config" in defaults(init), f"{target.fullname} config", init.loc(), f"{target.node.name} does not take the configuration of {F.node.name}")
        # the default configuration is the one of the factory
        for c in [target]:
            g = c.find_method("__init__")
            if g is None:
                continue
            built = [n for n in walk_local(g.node) if isinstance(n, ast.Call) and isinstance(ctx.project.resolve_expr(n.func, g.module, g), ClassInfo) and uses.factory in ctx.project.resolve_expr(n.func, g.module, g).mro]
            for n in built:
                cls = ctx.project.resolve_expr(n.func, g.module, g)
                par = parent(n)
                if isinstance(par, ast.IfExp) and "config" in ast.unparse(par.test):
                    ctx.check(rules["default"], cls is F and not n.args and not n.keywords, f"{target.fullname} default configuration", g.loc(n), f"without a configuration, {target.node.name} is built with {ast.unparse(n)} instead of the default options of {F.node.name}")
        for o in options:
            vals = [v for v in stored.get(o, []) if uses.mentions(v, o)]
            wrong = [v for v in stored.get(o, []) if not uses.mentions(v, o)]
            others = [x for x in wrong if any(uses.mentions(x, q) for q in options)]
            loads = config_loads(uses, target, o)
            renamed = [a for a, vs in stored.items() if a not in options and any(uses.mentions(v, o) for v in vs)]
            for a in renamed:
                loads = loads + config_loads(uses, target, a)
            if wrong:
                ctx.bad(rules["deliver"], f"{F.fullname} option {o}", f.loc(wrong[0]), f"{F.node.name} stores {ast.unparse(wrong[0])} as its option {o}" + (" (options mixed up)" if others else ""))
            elif vals or renamed:
                top = [n for n in f.node.body if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == o for t in n.targets) and not uses.mentions(n.value, o)]
                ctx.check(rules["deliver"], not top, f"{F.fullname} option {o}", f.loc(top[0] if top else None), f"option {o} of {F.node.name} is overwritten before it is stored")
            elif loads and any(isinstance(n, ast.Subscript) for _, n in loads):
                ctx.ok(rules["deliver"], f"{F.fullname} option {o}")
            else:
                # read nowhere else either
                used = any(uses.effective(g, n, o, F, frozenset()) for g, n in uses.param_loads(f, o))
                ctx.check(rules["used"], used, f"{F.fullname} option {o}", f.loc(), f"option {o} of {F.node.name} is accepted but neither stored nor read by {target.node.name}: it has no effect")
                continue
            good = any(uses.effective(g, n, o, target, frozenset()) for g, n in loads) or any(
                uses.effective(g, n, o, F, frozenset({("attr", o)})) for g, n in uses.param_loads(f, o)
            )
            ctx.check(rules["used"], good, f"{F.fullname} option {o}", f.loc(), f"option {o} of {F.node.name} never has an effect in {target.node.name}")
            check_values(ctx, F, f, o, uses, loads, target, rules)
        del initdef
        return
    # options passed by keyword to the constructor of the algorithm
    chain: tp.List[FuncInfo] = []
    wanted = defaults(init)
    for o, d in options.items():
        name = f"{F.fullname} option {o}"
        if o not in wanted:
            if init.node.args.kwarg is not None:
                ctx.ok(rules["deliver"], name)
            else:
                ctx.bad(rules["deliver"], name, init.loc(), f"{target.node.name} does not take option {o} of {F.node.name}")
            continue
        ctx.ok(rules["deliver"], name)
        if wanted[o] is not None and d is not None:
            ctx.check(rules["default"], same(d, wanted[o]), name, init.loc(), f"option {o} defaults to {ast.unparse(d)} in {F.node.name} and to {ast.unparse(wanted[o])} in {target.node.name}")  # type: ignore
        check_replaced(ctx, init, o, name, rules)
        loads = uses.param_loads(init, o)
        good = any(uses.effective(g, n, o, target, frozenset()) for g, n in loads)
        ctx.check(rules["used"], good, name, init.loc(), f"option {o} of {F.node.name} is accepted but never has an effect in {target.node.name}")
        check_values(ctx, F, f, o, uses, loads, target, rules, init)
    del chain


def check_values(ctx: Ctx, F: ClassInfo, f: FuncInfo, o: str, uses: Uses, loads: tp.Any, target: ClassInfo, rules: tp.Dict[str, str], init: tp.Optional[FuncInfo] = None) -> None:
    acc = accepted(f, o) or (accepted(init, o) if init is not None else None)
    if acc is None:
        return
    allowed, node = acc

    def in_check(n: ast.AST) -> bool:
        cur: tp.Any = n
        while cur is not None and not isinstance(cur, ast.FunctionDef):
            if cur is node or isinstance(cur, ast.Assert):
                return True
            cur = parent(cur)
        return False

    values, whole = distinguished(uses, [(g, n) for g, n in loads if not in_check(n)], target, set())
    values = {v: n for v, n in values.items() if not in_check(n)}
    if not whole:
        silent = sorted(allowed - set(values))
        ctx.check(rules["values"], len(silent) <= 1, f"{F.fullname} option {o} values", f.loc(node), f"{o} values {silent} of {F.node.name} are accepted but treated alike by {target.node.name}")


def settles(test: ast.expr, truth: bool, o: str, f: FuncInfo, depth: int = 0) -> bool:
    """the test having this truth value depends on the option, whatever the rest of the test says"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return settles(test.operand, not truth, o, f, depth)
    if isinstance(test, ast.BoolOp):
        every = isinstance(test.op, ast.Or) == truth  # any operand alone may be the reason
        res = [settles(v, truth, o, f, depth) for v in test.values]
        return all(res) if every else any(res)
    if isinstance(test, ast.Name) and test.id != o and depth < 3:
        values = local_values(f, test.id)
        if values:
            return all(settles(v, truth, o, f, depth + 1) for v in values)
    return mentions(test, o, f)


def mentions(e: ast.AST, o: str, f: FuncInfo, depth: int = 0) -> bool:
    for n in ast.walk(e):
        if isinstance(n, ast.Name):
            if n.id == o:
                return True
            if depth < 3 and isinstance(n.ctx, ast.Load) and n.id not in ("self", "np"):
                if any(mentions(v, o, f, depth + 1) for v in local_values(f, n.id)):
                    return True
    return False


def replaced_without_reason(f: FuncInfo, o: str) -> tp.List[ast.AST]:
    """assignments to the option itself of something else, which no test of the option decides"""
    out: tp.List[ast.AST] = []
    for n in walk_local(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == o for t in n.targets):
            value: tp.Optional[ast.expr] = n.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == o:
            value = n.value
        else:
            continue
        if value is None:
            continue
        guards: tp.List[tp.Tuple[ast.expr, bool]] = []
        cur: tp.Any = n
        opaque = False
        while parent(cur) is not None and cur is not f.node:
            up = parent(cur)
            if isinstance(up, ast.If) and cur is not up.test:
                guards.append((up.test, any(cur is x for x in up.body)))
            elif isinstance(up, (ast.Try, ast.ExceptHandler, ast.For, ast.While, ast.match_case)):
                opaque = True
            cur = up

        def unreasoned(v: ast.expr, gs: tp.List[tp.Tuple[ast.expr, bool]]) -> bool:
            if any(settles(t, b, o, f) for t, b in gs):
                return False
            if isinstance(v, ast.IfExp):
                return unreasoned(v.body, gs + [(v.test, True)]) or unreasoned(v.orelse, gs + [(v.test, False)])
            return not mentions(v, o, f)

        if not opaque and unreasoned(value, guards):
            out.append(n)
    return out


def check_replaced(ctx: Ctx, f: FuncInfo, o: str, name: str, rules: tp.Dict[str, str]) -> None:
    found = replaced_without_reason(f, o)
    ctx.check(rules["replaced"], not found, name, f.loc(found[0] if found else None), f"the value given for option {o} may be replaced although no test of {o} says so")


def check_names(ctx: Ctx, rules: tp.Dict[str, str], reg: ClassInfo) -> None:
    project = ctx.project
    seen: tp.Dict[str, str] = {}
    publics: tp.Dict[str, tp.List[tp.Tuple[Module, ast.AST]]] = {}
    base = project.module(BASE)
    for m in project.modules.values():
        if not m.name.startswith("nevergrad.optimization"):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "set_name":
                b = bind(n, ["name", "register"])
                r = b.get("register")
                if r is None or (isinstance(r, ast.Constant) and not r.value):
                    continue
                f = enclosing(n)
                if f is not None:
                    continue  # P18 decides registrations at run time
                loc = f"{m.relpath}:{n.lineno}"
                name = b.get("name")
                if not isinstance(name, ast.Constant):
                    # a constant variable of the module
                    vals = m.variables.get(name.id, []) if isinstance(name, ast.Name) else []
                    if len(vals) == 1 and isinstance(vals[0], ast.Constant):
                        name = vals[0]
                if not isinstance(name, ast.Constant) or not isinstance(name.value, str):
                    ctx.notes.append(f"{loc}: registered name is not a literal")
                    continue
                par = parent(n)
                target = None
                if isinstance(par, ast.Assign) and len(par.targets) == 1 and isinstance(par.targets[0], ast.Name):
                    target = par.targets[0].id
                elif isinstance(par, ast.AnnAssign) and isinstance(par.target, ast.Name):
                    target = par.target.id
                elif isinstance(par, ast.Expr):
                    obj = n.func.value
                    target = obj.id if isinstance(obj, ast.Name) else None
                label = f"registered name {name.value}"
                ctx.check(rules["name"], target == name.value, label, loc, f"{name.value!r} is registered for the object called {target!r}: looking up the name of the public object fails or gives another one")
                if name.value in seen:
                    ctx.bad(rules["once"], label, loc, f"{name.value!r} is registered twice (also at {seen[name.value]})")
                else:
                    seen[name.value] = loc
                    ctx.ok(rules["once"], label)
                if target == name.value:
                    publics.setdefault(target, []).append((m, par))
            elif isinstance(n, ast.ClassDef):
                for d in n.decorator_list:
                    text = ast.unparse(d.func if isinstance(d, ast.Call) else d)
                    if text.split(".")[-1] in ("register", "register_with_info") and "registry" in text:
                        if enclosing(n) is not None:
                            continue
                        loc = f"{m.relpath}:{n.lineno}"
                        label = f"registered name {n.name}"
                        if n.name in seen:
                            ctx.bad(rules["once"], label, loc, f"{n.name!r} is registered twice (also at {seen[n.name]})")
                        else:
                            seen[n.name] = loc
                            ctx.ok(rules["once"], label)
                        publics.setdefault(n.name, []).append((m, n))
    # the public objects are bound once
    for name, where in publics.items():
        for m, node in where:
            others: tp.List[ast.stmt] = []
            if isinstance(node, ast.Expr):  # registered after its assignment: the single binding before it
                found = [stmt for st in module_bindings(m.tree) for t, stmt in st if t == name]
                others = [x for x in found if x.lineno > node.lineno or x is not found[0]]
                ctx.check(rules["bound"], not others, f"public name {name}", f"{m.relpath}:{others[0].lineno if others else node.lineno}", f"{name} is bound again in {m.name}: the registered object is not the public one any more")
                continue
            for st in module_bindings(m.tree):
                for t, stmt in st:
                    if t == name and stmt is not node:
                        others.append(stmt)
            ctx.check(rules["bound"], not others, f"public name {name}", f"{m.relpath}:{others[0].lineno if others else node.lineno}", f"{name} is bound again in {m.name}: the registered object is not the public one any more")
    # the name of an optimizer class is the name it is registered under
    del base


def module_bindings(tree: ast.Module) -> tp.Iterator[tp.List[tp.Tuple[str, ast.stmt]]]:
    def walk(body: tp.Sequence[ast.stmt]) -> tp.Iterator[ast.stmt]:
        for st in body:
            yield st
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            for field in ("body", "orelse", "finalbody"):
                yield from walk(getattr(st, field, []) or [])
            for h in getattr(st, "handlers", []) or []:
                yield from walk(h.body)

    for st in walk(tree.body):
        out: tp.List[tp.Tuple[str, ast.stmt]] = []
        if isinstance(st, ast.Assign):
            out = [(x.id, st) for t in st.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
        elif isinstance(st, (ast.AnnAssign, ast.AugAssign)) and isinstance(st.target, ast.Name):
            if not (isinstance(st, ast.AnnAssign) and st.value is None):
                out = [(st.target.id, st)]
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            out = [(st.name, st)]
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            out = [((a.asname or a.name).split(".")[0], st) for a in st.names]
        elif isinstance(st, ast.For):
            out = [(x.id, st) for x in ast.walk(st.target) if isinstance(x, ast.Name)]
        yield out


def check(ctx: Ctx) -> None:
    project = ctx.project
    factory = project.cls(BASE, "ConfiguredOptimizer")
    reg = project.cls("nevergrad.common.decorators", "Registry")
    texts = {
        "deliver": ("every option of a factory is handed to the algorithm under its own name", 20),
        "default": ("factory and algorithm have the same default for each option", 10),
        "used": ("every option has an effect in the algorithm", 20),
        "replaced": ("a constructor replaces the value of an option only where a test of that option says so", 20),
        "values": ("at most one accepted value of an option is left to the default behaviour of the algorithm", 0),
        "name": ("optimizers are registered under the name of the public object", 100),
        "once": ("no name is registered twice", 100),
        "bound": ("public names of registered objects are bound once", 100),
    }
    for k, (text, minimum) in texts.items():
        ctx.rule(k, text, minimum)
    rules = {k: k for k in texts}
    uses = Uses(ctx, factory)
    base_init = factory.methods["__init__"]
    for F in factory.all_subclasses():
        if F is factory or ".test_" in F.module.name:
            continue
        check_factory(ctx, F, base_init, uses, rules)
    check_names(ctx, rules, reg)
    check_mechanics(ctx, factory, reg)


# ---- mechanics of the factory and of the registry ------------------------------------------------------------------


def check_mechanics(ctx: Ctx, factory: ClassInfo, reg: ClassInfo) -> None:
    ctx.rule("factory", "the factory keeps all the options, hands all of them to the algorithm and names the optimizer after itself", 5)
    ctx.rule("registry", "the registry refuses duplicates and returns the object stored under the name", 4)
    project = ctx.project
    pol = dict(max_depth=3, opaque=frozenset({"different_from_defaults"}), raises=lambda ev: False)
    # __init__: all the options are kept
    init = factory.methods["__init__"]
    for p in ctx.paths(init, P(**pol), factory):
        if p.kind == "raise":
            continue
        stores = [e for e in p.events if e.kind == "setattr" and e.data["base"] == SELF]
        last = {e.data["name"]: e.data["value"] for e in stores}
        cfg = ("param", "config")
        kept = last.get("_config")
        whole = kept is not None and (contains(kept, cfg) or any(isinstance(n, ast.Name) and n.id == "config" for v in attr_values(init, "_config") for n in ast.walk(v)))
        ctx.check("factory", whole, "ConfiguredOptimizer.__init__ options", init.loc(), "a path of the constructor does not keep the options", path_note(p))
        ctx.check("factory", last.get("_OptimizerClass") == ("param", "OptimizerClass"), "ConfiguredOptimizer.__init__ class", init.loc(), "a path of the constructor does not keep the class of the algorithm", path_note(p))
        ctx.check("factory", any(v == ("param", "as_config") for v in [last.get("_as_config")]), "ConfiguredOptimizer.__init__ as_config", init.loc(), "a path of the constructor does not keep how the options are passed", path_note(p))
        ctx.check("factory", "name" in last, "ConfiguredOptimizer.__init__ name", init.loc(), "a path of the constructor does not name the factory", path_note(p))
        # only the two artefacts of locals() are removed, nothing else is changed
        for e in p.events:
            removed = None
            if e.kind == "call" and e.data["recv"] is not None and contains(e.data["recv"], cfg) and short(e) in ("pop", "popitem", "clear", "update", "setdefault", "__delitem__", "__setitem__"):
                removed = e.data["args"][0] if short(e) == "pop" and e.data["args"] else ("?",)
            elif e.kind in ("delitem", "setitem") and contains(e.data["base"], cfg):
                removed = e.data["idx"] if e.kind == "delitem" else ("?",)
            if removed is not None:
                ctx.check("factory", removed in (const("self"), const("__class__")), "ConfiguredOptimizer.__init__ removal", init.loc(e.node) if hasattr(e, "node") else init.loc(), f"the constructor changes the options it was given ({show(removed)})", path_note(p))
    # config(): a copy of all the options
    f = factory.methods["config"]
    for p in ctx.paths(f, P(**pol), factory):
        if p.kind == "return":
            ctx.check("factory", p.value is not None and mentions_attr(p, "_config"), "ConfiguredOptimizer.config", f.loc(), "config() does not return the options", path_note(p))
    # __call__
    f = factory.methods["__call__"]
    for p in ctx.paths(f, P(**dict(pol, opaque=frozenset({"config"}))), factory):
        if p.kind != "return":
            continue
        built = [e for e in p.events if e.kind == "call" and e.data["result"] == p.value]
        if not built:
            ctx.bad("factory", "ConfiguredOptimizer.__call__ result", f.loc(), f"a path returns {show(p.value)[:80]}, not the optimizer it builds", path_note(p))
            continue
        ev = built[-1]
        named = {k: v for k, v in ev.data["kwargs"] if isinstance(k, str)}
        pos = list(ev.data["args"])
        for i, name in enumerate(["parametrization", "budget", "num_workers"]):
            v = named.get(name, pos[i] if i < len(pos) else None)
            ctx.check("factory", v == ("param", name), f"ConfiguredOptimizer.__call__ {name}", f.loc(), f"a path gives {show(v) if v else 'nothing'} as the {name} of the optimizer", path_note(p))
        names = [e for e in p.events if e.kind == "setattr" and e.data["base"] == p.value and e.data["name"] == "name"]
        ctx.check("factory", bool(names) and names[-1].data["value"] == attr("name"), "ConfiguredOptimizer.__call__ name", f.loc(), "a path does not name the optimizer after the factory", path_note(p))
        check_call_config(ctx, f, p, ev, named)
    # set_name
    f = factory.methods["set_name"]
    for p in ctx.paths(f, P(**dict(pol, opaque=frozenset({"register_name"}))), factory):
        if p.kind != "return":
            continue
        named2 = [e for e in p.events if e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == "name"]
        ctx.check("factory", bool(named2) and named2[-1].data["value"] == ("param", "name"), "ConfiguredOptimizer.set_name name", f.loc(), "a path does not set the name", path_note(p))
        ctx.check("factory", p.value == SELF, "ConfiguredOptimizer.set_name result", f.loc(), "a path does not return the factory", path_note(p))
        asked = [b for t, b in p.conds if contains(t, ("param", "register"))]
        regs = [e for e in p.events if is_call(e, "register_name", "__setitem__") or e.kind == "setitem"]
        if not asked or asked[-1]:
            ok = [e for e in regs if e.kind == "call" and arg(e, 0, "name") == ("param", "name") and arg(e, 1, "obj") == SELF]
            ctx.check("factory", bool(ok), "ConfiguredOptimizer.set_name register", f.loc(), "a path does not register the factory under the given name", path_note(p))
        else:
            ctx.check("factory", not regs, "ConfiguredOptimizer.set_name no register", f.loc(), "a path registers the factory although it was not asked to", path_note(p))
    # __eq__: equal options, equal class
    f = factory.methods.get("__eq__")
    if f is not None:
        for p in ctx.paths(f, P(**pol), factory):
            if p.kind != "return":
                continue
            v = p.value
            text = show(v) + " ".join(show(t) for t, b in p.conds if b)
            if v == FALSE or (isinstance(v, tuple) and show(v) == "NotImplemented"):
                continue
            good = "_config" in text and ("__class__" in text or "type(" in text)
            ctx.check("factory", good, "ConfiguredOptimizer.__eq__", f.loc(), "two factories may be equal although their classes or options differ", path_note(p))
    # registry
    name = ("param", "name")
    f = reg.methods["register_name"]
    rp = dict(max_depth=3, opaque=frozenset({"__contains__"}))
    for p in ctx.paths(f, P(**rp), reg):
        known = [b for t, b in p.conds if isinstance(t, tuple) and t[0] == "cmp" and contains(t, name) and contains(t, SELF) and t[1] in ("in", "not in")]
        dup = None
        for t, b in p.conds:
            if isinstance(t, tuple) and t[0] == "cmp" and contains(t, name) and contains(t, SELF):
                dup = b if t[1] in ("in", "In") else (not b if t[1] in ("not in", "NotIn") else dup)
        stored = [e for e in p.events if e.kind == "setitem" and contains(e.data["base"], SELF) and "_information" not in show(e.data["base"])]
        del known
        if p.kind == "raise":
            ctx.check("registry", dup is not False or not stored, "Registry.register_name refusal", f.loc(), "a free name is refused", path_note(p))
            continue
        ctx.check("registry", dup is False, "Registry.register_name duplicates", f.loc(), "a path overwrites an object registered under the same name", path_note(p))
        good = [e for e in stored if item_key(e) == name and e.data["value"] == ("param", "obj")]
        ctx.check("registry", bool(good), "Registry.register_name storage", f.loc(), "a path does not store the object under the given name", path_note(p))
    f = reg.methods["register"]
    for p in ctx.paths(f, P(opaque=frozenset({"register_name"}), max_depth=3), reg):
        if p.kind != "return":
            continue
        ctx.check("registry", p.value == ("param", "obj"), "Registry.register result", f.loc(), "the decorator does not return the registered object", path_note(p))
        regs = [e for e in p.events if is_call(e, "register_name")]
        good = any("__name__" in show(arg(e, 0, "name") or NONE) and contains(arg(e, 0, "name"), ("param", "obj")) and arg(e, 1, "obj") == ("param", "obj") and arg(e, 2, "info") == ("param", "info") for e in regs)
        ctx.check("registry", good, "Registry.register name", f.loc(), "the decorator does not register the object (with its information) under its own name", path_note(p))
    f = reg.find_method("__setitem__")
    if f is not None and f.cls is reg:
        key, value = ("param", f.params[1].arg), ("param", f.params[2].arg)
        for p in ctx.paths(f, P(max_depth=3), reg):
            if p.kind == "return":
                good = any(e.kind == "setitem" and contains(e.data["base"], SELF) and item_key(e) == key and e.data["value"] == value for e in p.events)
                ctx.check("registry", good, "Registry.__setitem__", f.loc(), "a path does not store the object under its name", path_note(p))
    f = reg.find_method("__getitem__")
    if f is not None and f.cls is reg:
        for p in ctx.paths(f, P(max_depth=3), reg):
            if p.kind == "return":
                ctx.check("registry", p.value is not None and p.value[0] == "sub" and contains(p.value, ("param", f.params[1].arg)) and contains(p.value, SELF), "Registry.__getitem__", f.loc(), "looking a name up does not return the object stored under it", path_note(p))
    del project


def attr_values(f: FuncInfo, name: str) -> tp.List[ast.expr]:
    return [n.value for n in walk_local(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == name for t in n.targets)]


def item_key(e: Event) -> tp.Any:
    return e.data["idx"]


def mentions_attr(p: Path, name: str) -> bool:
    if contains(p.value, attr(name)):
        return True
    return any(e.kind == "call" and any(contains(a, attr(name)) for a in e.data["args"]) and e.data["result"] == p.value for e in p.events) or any(
        contains(e.data.get("value", NONE), attr(name)) for e in p.events if e.kind in ("setitem",)
    )


def check_call_config(ctx: Ctx, f: FuncInfo, p: Path, ev: Event, named: tp.Dict[str, Term]) -> None:
    star = [v for k, v in ev.data["kwargs"] if k is None or k == "**"]
    conds = {show(t): b for t, b in p.conds}
    wrapped = any("isinstance" in s and "_OptimizerClass" in s and b for s, b in conds.items()) or any("inst" == t[0] and b for t, b in p.conds if isinstance(t, tuple) and contains(t, attr("_OptimizerClass")))
    as_conf = [b for t, b in p.conds if contains(t, attr("_as_config"))]
    text = " ".join(show(v) for v in star) + " ".join(show(v) for k, v in named.items() if k not in ("parametrization", "budget", "num_workers"))
    if wrapped:
        ctx.ok("factory", "ConfiguredOptimizer.__call__ wrapped factory")
        return
    if not as_conf:
        # the choice may be made by the configuration itself
        ctx.check("factory", "config" in text, "ConfiguredOptimizer.__call__ options", f.loc(), "a path builds the optimizer without its options", path_note(p))
    elif as_conf[-1]:
        good = named.get("config") == SELF or any(contains(v, SELF) and "config=" in show(v) for v in star)
        ctx.check("factory", good, "ConfiguredOptimizer.__call__ config", f.loc(), "a path does not give the factory to the optimizer as its configuration", path_note(p))
    else:
        good = any("config()" in show(v) or contains(v, attr("_config")) for v in star) or any(
            e.kind == "call" and short(e) == "config" and e.data["result"] in star for e in p.events
        )
        ctx.check("factory", good, "ConfiguredOptimizer.__call__ options", f.loc(), "a path does not give all the options to the optimizer", path_note(p))
