"""Competence maps always select a usable optimizer."""
from __future__ import annotations

from ..flow import Flow
from . import p12
from .common import *

TECHNIQUE = "flow-sensitive reaching-definition and condition-refinement analysis of every selection function (with its helpers), and structural checks of every composite optimizer expression against the constructors"
EXPLANATION = (
    "In every selection function (and the helpers it returns from), each exit returns a value, the value is an optimizer class or factory (locals are followed to all their reaching definitions and none may be undefined), "
    "and an optimizer which refuses parallel workers is only returned where the branches taken imply one worker. Selectors never select themselves through a cycle. Chains have one more optimizer than budgets and known "
    "budget keywords, looked up names are registered, factories called in selectors get options they have, with values they accept, and composites of optimizers which refuse parallel workers are marked as such."
)
SELECTOR = "_select_optimizer_cls"
INNER = {
    "Chaining": ["optimizers"], "Rescaled": ["base_optimizer"], "ParametrizedMetaModel": ["multivariate_optimizer"], "MultipleSingleRuns": ["base_optimizer"],
    "ConfSplitOptimizer": ["multivariate_optimizer", "monovariate_optimizer"], "ConfPortfolio": ["optimizers"],
}
UNDEFINED = "undefined"
FLAG = "no_parallelization"


class Lib:
    """What optimizer expressions denote."""

    def __init__(self, ctx: Ctx) -> None:
        self.ctx, self.project = ctx, ctx.project
        self.optimizer = optimizer(ctx)
        self.factory = ctx.project.cls(BASE, "ConfiguredOptimizer")
        self.flags: tp.Dict[tp.Tuple[str, str], bool] = {}
        self.registered: tp.Dict[str, tp.Tuple[Module, tp.Any]] = {}
        self.modules = [m for m in ctx.project.modules.values() if m.name.startswith(OPT) and ".test_" not in m.name]
        for m in self.modules:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Assign) and p12.enclosing(n) is None:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == FLAG and isinstance(t.value, ast.Name) and isinstance(n.value, ast.Constant):
                            owner = self.owner(m, t.value)
                            self.flags[owner] = bool(n.value.value)
                if isinstance(n, ast.ClassDef) and p12.enclosing(n) is None:
                    for d in n.decorator_list:
                        text = ast.unparse(d)
                        if "registry.register" in text:
                            self.registered[n.name] = (m, ast.Name(id=n.name, ctx=ast.Load()))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "set_name" and p12.enclosing(n) is None:
                    b = p12.bind(n, ["name", "register"])
                    if isinstance(b.get("name"), ast.Constant) and "register" in b:
                        self.registered[str(b["name"].value)] = (m, n)  # type: ignore

    def owner(self, m: Module, name: ast.Name) -> tp.Tuple[str, str]:
        ent = self.project.resolve_expr(name, m, None)
        if isinstance(ent, ModVar):
            return (ent.module.name, ent.name)
        if isinstance(ent, ClassInfo):
            return (ent.module.name, ent.node.name)
        return (m.name, name.id)

    def class_flag(self, c: ClassInfo) -> bool:
        if (c.module.name, c.node.name) in self.flags:
            return self.flags[(c.module.name, c.node.name)]
        _, v = c.find_class_attr(FLAG)
        return isinstance(v, ast.Constant) and v.value is True

    def algorithm(self, F: ClassInfo) -> tp.Optional[ClassInfo]:
        f = F.find_method("__init__")
        if f is None:
            return None
        for c in p12.super_init(f):
            b = p12.bind(c, ["OptimizerClass", "config", "as_config"])
            if "OptimizerClass" in b:
                ent = self.project.resolve_expr(b["OptimizerClass"], f.module, f)
                return ent if isinstance(ent, ClassInfo) else None
        return None

    def elements(self, F: ClassInfo, call: ast.Call, option: str) -> tp.List[ast.expr]:
        f = F.find_method("__init__")
        names = [x.arg for x in f.params][1:] if f is not None else []
        e = p12.bind(call, names).get(option)
        if e is None:
            return []
        return self.items(e, p12.enclosing(call)) if option == "optimizers" else [e]

    def items(self, e: ast.expr, f: tp.Optional[FuncInfo], depth: int = 0) -> tp.List[ast.expr]:
        """Elements of a list, followed through the locals which hold it."""
        if isinstance(e, ast.Name) and f is not None and depth < 4:
            out = [x for v in p12.local_values(f, e.id) for x in self.items(v, f, depth + 1)]
            for n in walk_local(f.node):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                    out += self.items(n.value, f, depth + 1)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert") and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id:
                    out += n.args[-1:]
            return out
        return flat(e)

    def seq(self, e: ast.expr, m: Module, f: tp.Optional[FuncInfo], flagged: bool = True, depth: int = 0) -> bool:
        """Whether building this optimizer with several workers is refused (or it is marked so)."""
        if depth > 12:
            return False
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr == "set_name":
                return self.seq(e.func.value, m, f, flagged, depth + 1)
            ent = self.project.resolve_expr(e.func, m, f)
            if isinstance(ent, ClassInfo) and self.factory in ent.mro:
                alg = self.algorithm(ent)
                if (flagged and self.class_flag(ent)) or (alg is not None and self.factory not in alg.mro and self.class_flag(alg)):
                    return True
                name = ent.node.name
                inner = [x for o in INNER.get(name, []) for x in self.elements(ent, e, o)]
                hits = [self.seq(x, m, f, flagged if name != "ConfPortfolio" else True, depth + 1) for x in inner]
                return bool(hits) and (all(hits) if name == "ConfPortfolio" else any(hits))
            return False
        if isinstance(e, ast.IfExp):
            return self.seq(e.body, m, f, flagged, depth + 1) or self.seq(e.orelse, m, f, flagged, depth + 1)
        if isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value in self.registered:
            m2, e2 = self.registered[e.value]
            return self.seq(e2, m2, None, flagged, depth + 1)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            return self.seq(e.slice, m, f, flagged, depth + 1)
        ent = self.project.resolve_expr(e, m, f)
        if isinstance(ent, ClassInfo):
            return self.class_flag(ent) and self.optimizer in ent.mro
        if isinstance(ent, ModVar):
            if flagged and self.flags.get((ent.module.name, ent.name)):
                return True
            return any(self.seq(x, ent.module, None, flagged, depth + 1) for x in ent.module.variables.get(ent.name, [])[-1:])
        return False


def flat(e: ast.expr) -> tp.List[ast.expr]:
    if isinstance(e, (ast.List, ast.Tuple)):
        return [y for x in e.elts for y in (flat(x.value) if isinstance(x, ast.Starred) else [x])]
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
        return [e.elt]
    if isinstance(e, ast.BinOp):
        return (flat(e.left) if isinstance(e.left, (ast.List, ast.Tuple, ast.BinOp, ast.ListComp)) else []) + (flat(e.right) if isinstance(e.right, (ast.List, ast.Tuple, ast.BinOp, ast.ListComp)) else [])
    if isinstance(e, ast.IfExp):
        return flat(e.body) + flat(e.orelse)
    if isinstance(e, ast.Call) and ast.unparse(e.func) in ("list", "tuple") and len(e.args) == 1:
        return flat(e.args[0])
    if isinstance(e, ast.Name):
        return []
    return [e]


Env = tp.FrozenSet[tp.Tuple[str, tp.Any]]


class Select(Flow):
    """States: (what is known of the number of workers, reaching definitions of the locals)."""

    def __init__(self, rule: "Rule", f: FuncInfo, cls: ClassInfo) -> None:
        self.rule, self.f, self.cls = rule, f, cls
        self.params = {x.arg for x in f.params} | {x.arg for x in f.node.args.kwonlyargs}
        if f.node.args.vararg:
            self.params.add(f.node.args.vararg.arg)
        if f.node.args.kwarg:
            self.params.add(f.node.args.kwarg.arg)
        self.stored: tp.Set[str] = set()
        self.nested = {n.name for n in walk_local(f.node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node}
        for n in walk_local(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and not in_comprehension(n, f.node):
                self.stored.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.stored |= {(a.asname or a.name).split(".")[0] for a in n.names}
        self.defs: tp.Dict[int, ast.expr] = {}
        self.problems: tp.Dict[tp.Tuple[str, int], str] = {}
        self.count = 0

    # ---- state
    def lookup(self, env: Env, name: str) -> tp.Set[tp.Any]:
        return {v for k, v in env if k == name}

    def assign(self, env: Env, name: str, value: tp.Any) -> Env:
        return frozenset({(k, v) for k, v in env if k != name} | {(name, value)})

    def raises(self, node: ast.AST) -> bool:
        return isinstance(getattr(node, "_nv_parent", None), ast.Try) or self.in_try(node)

    def in_try(self, node: ast.AST) -> bool:
        cur: tp.Any = getattr(node, "_nv_parent", None)
        while cur is not None and cur is not self.f.node:
            if isinstance(cur, ast.Try):
                return True
            cur = getattr(cur, "_nv_parent", None)
        return False

    def transfer(self, node: ast.AST, state: tp.Any) -> tp.Iterable[tp.Any]:
        seq, env = state
        # loads
        todo: tp.List[ast.AST] = [node]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.stored and n.id not in self.params:
                if not in_comprehension(n, self.f.node, n.id):
                    got = self.lookup(env, n.id)
                    if not got or UNDEFINED in got:
                        self.problems[("undefined", n.lineno)] = f"{n.id} may be undefined when it is used"
            todo.extend(ast.iter_child_nodes(n))
        if isinstance(node, ast.Return):
            self.result(node, node.value, seq, env)
        elif isinstance(node, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            targets = node.targets if isinstance(node, ast.Assign) else [node.target]
            value = node.value
            for t in targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        if isinstance(node, ast.AugAssign):
                            if x.id in self.params or x.id in {k for k, _ in env}:
                                continue
                        if value is None:
                            continue  # a bare annotation
                        simple = x is t
                        self.defs[id(value)] = value
                        env = self.assign(env, x.id, id(value) if simple else "part")
                if isinstance(t, ast.Attribute) and t.attr == "num_workers":
                    seq = 0
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
            env = self.assign(env, node.id, "loop")
        elif isinstance(node, ast.withitem) and node.optional_vars is not None:
            for x in ast.walk(node.optional_vars):
                if isinstance(x, ast.Name):
                    env = self.assign(env, x.id, "with")
        elif isinstance(node, (ast.Tuple, ast.List)) and isinstance(node.ctx, ast.Store):
            for x in ast.walk(node):
                if isinstance(x, ast.Name):
                    env = self.assign(env, x.id, "loop")
        elif isinstance(node, (ast.Import, ast.ImportFrom)):
            for a in node.names:
                env = self.assign(env, (a.asname or a.name).split(".")[0], "import")
        elif isinstance(node, ast.Delete):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    env = self.assign(env, t.id, UNDEFINED)
        for x in ast.walk(node):
            if isinstance(x, ast.NamedExpr):
                self.defs[id(x.value)] = x.value
                env = self.assign(env, x.target.id, id(x.value))
        return ((seq, env),)

    def branch(self, test: ast.expr, state: tp.Any, taken: bool) -> tp.Iterable[tp.Any]:
        seq, env = state
        return ((self.refine(seq, test, taken), env),)

    # ---- one worker
    def refine(self, seq: int, test: ast.expr, taken: bool) -> int:
        """2: one worker is known, 1: the number of workers is bounded by something."""
        if seq < 2 and self.implied(test, taken):
            return 2
        self.loose = True
        try:
            return max(seq, 1) if seq < 1 and self.implied(test, taken) else seq
        finally:
            self.loose = False

    loose = False

    def workers(self, e: ast.expr, depth: int = 0) -> bool:
        if isinstance(e, ast.Attribute) and e.attr == "num_workers" and isinstance(e.value, ast.Name) and e.value.id == self.f.params[0].arg:
            return True
        if isinstance(e, ast.Name) and depth < 4:
            vals = p12.local_values(self.f, e.id)
            return len(vals) == 1 and e.id not in self.params and self.workers(vals[0], depth + 1)
        return isinstance(e, ast.Call) and ast.unparse(e.func) == "int" and len(e.args) == 1 and self.workers(e.args[0], depth)

    def implied(self, test: ast.expr, taken: bool, depth: int = 0) -> bool:
        if depth > 8:
            return False
        if isinstance(test, ast.BoolOp):
            every = isinstance(test.op, ast.And) != taken
            hits = [self.implied(v, taken, depth + 1) for v in test.values]
            return all(hits) if every else any(hits)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.implied(test.operand, not taken, depth + 1)
        if isinstance(test, ast.Compare):
            links = list(zip([test.left] + list(test.comparators), test.ops, test.comparators))
            hits = [self.link(a, op, b, taken) for a, op, b in links]
            return any(hits) if taken or len(hits) == 1 else False
        if isinstance(test, ast.Name) and test.id not in self.params:
            vals = p12.local_values(self.f, test.id)
            return len(vals) == 1 and self.implied(vals[0], taken, depth + 1)
        target: tp.Optional[FuncInfo] = None
        if isinstance(test, ast.Call):
            t = self.rule.ctx.project.call_target(test, self.f, self.cls)
            target = t if isinstance(t, FuncInfo) else None
        elif isinstance(test, ast.Attribute) and isinstance(test.value, ast.Name) and test.value.id == self.f.params[0].arg:
            t = self.cls.find_method(test.attr)
            target = t if t is not None and t.is_property else None
        if target is not None:
            rets = [n.value for n in walk_local(target.node) if isinstance(n, ast.Return) and n.value is not None]
            if len(rets) == 1 and target.params:
                sub = Select(self.rule, target, self.cls)
                sub.loose = self.loose
                return sub.implied(rets[0], taken, depth + 1)
        return False

    def link(self, a: ast.expr, op: ast.cmpop, b: ast.expr, taken: bool) -> bool:
        mirror = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        kind: tp.Any = type(op)
        if self.workers(b) and kind in mirror:
            a, b, kind = b, a, mirror[kind]
        if self.loose and self.workers(a):
            if not taken:
                kind = {ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.NotEq: ast.Eq}.get(kind)
            return kind in (ast.Eq, ast.Lt, ast.LtE)
        if not self.workers(a) or not isinstance(b, ast.Constant) or not isinstance(b.value, (int, float)):
            return False
        if not taken:
            kind = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(kind)
        return (kind is ast.Eq and b.value == 1) or (kind is ast.Lt and b.value <= 2) or (kind is ast.LtE and b.value < 2)

    # ---- results
    def result(self, node: ast.AST, e: tp.Optional[ast.expr], seq: int, env: Env) -> None:
        self.count += 1
        if e is None:
            self.problems[("nothing", getattr(node, "lineno", 0))] = "nothing is returned"
            return
        self.value(e, seq, env, node)

    def value(self, e: ast.expr, seq: int, env: Env, node: ast.AST, depth: int = 0, through: bool = False) -> None:
        line = getattr(node, "lineno", 0)
        lib = self.rule.lib
        if depth > 12:
            return
        if isinstance(e, ast.IfExp):
            self.value(e.body, self.refine(seq, e.test, True), env, node, depth + 1)
            self.value(e.orelse, self.refine(seq, e.test, False), env, node, depth + 1)
            return
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                self.value(v, seq, env, node, depth + 1)
            return
        if isinstance(e, ast.NamedExpr):
            return self.value(e.value, seq, env, node, depth + 1)
        if isinstance(e, ast.Constant):
            if not (isinstance(e.value, str) and through):
                self.problems[("nothing", line)] = f"{e.value!r} is returned, which is not an optimizer"
            return
        if isinstance(e, ast.Name) and e.id in self.stored and e.id not in self.params:
            for d in self.lookup(env, e.id):
                if isinstance(d, int):
                    self.value(self.defs[d], seq, env, node, depth + 1)
            return
        if isinstance(e, ast.Subscript):
            if ast.unparse(e.value).split(".")[-1] == "registry":
                if isinstance(e.slice, ast.Constant) and lib.seq(e, self.f.module, self.f) and seq < 2:
                    self.problems[("parallel", line)] = f"{ast.unparse(e)} refuses several workers but is selected without checking that there is only one"
                return
            if isinstance(e.value, (ast.Dict,)):
                for v in e.value.values:
                    self.value(v, seq, env, node, depth + 1)
            elif isinstance(e.value, (ast.List, ast.Tuple)):
                for v in e.value.elts:
                    self.value(v, seq, env, node, depth + 1)
            elif isinstance(e.value, ast.Name):
                for d in self.lookup(env, e.value.id):
                    if isinstance(d, int) and isinstance(self.defs[d], (ast.Dict, ast.List, ast.Tuple)):
                        self.value(ast.Subscript(value=self.defs[d], slice=e.slice, ctx=ast.Load()), seq, env, node, depth + 1)
            return
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute) and fn.attr == SELECTOR:
                return
            if isinstance(fn, ast.Attribute) and fn.attr == "set_name":
                return self.value(fn.value, seq, env, node, depth + 1)
            if isinstance(fn, ast.Attribute) and fn.attr == "get" and e.args:
                for v in e.args[1:]:
                    self.value(v, seq, env, node, depth + 1)
                if isinstance(fn.value, ast.Dict):
                    for v in fn.value.values:
                        self.value(v, seq, env, node, depth + 1)
                if len(e.args) == 1:
                    self.problems[("nothing", line)] = "a lookup which may give nothing is returned"
                return
            ent = self.rule.ctx.project.call_target(e, self.f, self.cls)
            if not isinstance(ent, (ClassInfo, FuncInfo)):
                ent = self.rule.ctx.project.resolve_expr(fn, self.f.module, self.f)
            if isinstance(ent, FuncInfo):
                self.rule.select(ent, self.cls if ent.cls is not None else self.cls, seq)
                return
            if isinstance(ent, ClassInfo):
                if lib.factory in ent.mro:
                    if lib.seq(e, self.f.module, self.f) and seq < (1 if ent.node.name == "ConfPortfolio" else 2):
                        self.problems[("parallel", line)] = f"{ast.unparse(e)[:80]} refuses several workers but is selected without checking that there is only one"
                    for o in INNER.get(ent.node.name, []):
                        for x in lib.elements(ent, e, o):
                            self.value(x, 2 if ent.node.name == "ConfPortfolio" else seq, env, node, depth + 1, True)
                    return
                self.problems[("kind", line)] = f"an instance of {ent.node.name} is returned instead of an optimizer class or factory"
                return
            if isinstance(ent, ModVar) and any(self.rule.is_optimizer_expr(v, ent.module) for v in ent.module.variables.get(ent.name, [])):
                self.problems[("kind", line)] = f"an instance built by {ent.name} is returned instead of an optimizer class or factory"
                return
            self.rule.ctx.notes.append(f"{self.f.fullname}:{line}: not followed: {ast.unparse(e)[:80]}")
            return
        ent = self.rule.ctx.project.resolve_expr(e, self.f.module, self.f)
        if isinstance(ent, ClassInfo):
            if lib.optimizer not in ent.mro:
                self.problems[("kind", line)] = f"{ent.node.name} is returned, which is not an optimizer"
            elif lib.seq(e, self.f.module, self.f) and seq < 2:
                self.problems[("parallel", line)] = f"{ent.node.name} refuses several workers but is selected without checking that there is only one"
            return
        if isinstance(ent, ModVar):
            vals = ent.module.variables.get(ent.name, [])
            good = any(self.rule.is_optimizer_expr(v, ent.module) for v in vals)
            if not good:
                self.problems[("kind", line)] = f"{ent.name} is returned, which is not an optimizer"
            elif lib.seq(e, self.f.module, self.f) and seq < 2:
                self.problems[("parallel", line)] = f"{ent.name} refuses several workers but is selected without checking that there is only one"
            return
        if ent is None or isinstance(ent, (External, Module, FuncInfo)):
            if isinstance(e, ast.Name) and e.id in self.params or isinstance(e, ast.Attribute) and not isinstance(ent, (External, Module)):
                return
            if isinstance(e, (ast.Name, ast.Attribute)):
                self.problems[("kind", line)] = f"{ast.unparse(e)} is returned, which is not an optimizer"


def in_comprehension(n: ast.AST, top: ast.AST, name: tp.Optional[str] = None) -> bool:
    cur: tp.Any = n
    while cur is not None and cur is not top:
        par = getattr(cur, "_nv_parent", None)
        if isinstance(par, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if name is None:
                return True
            if any(isinstance(x, ast.Name) and x.id == name for g in par.generators for x in ast.walk(g.target)):
                return True
        cur = par
    return False


class Rule:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx = ctx
        self.lib = Lib(ctx)
        self.done: tp.Set[tp.Tuple[int, str, int]] = set()
        self.busy: tp.Set[int] = set()

    def is_optimizer_expr(self, e: ast.expr, m: Module, depth: int = 0) -> bool:
        if depth > 8:
            return False
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr == "set_name":
                return self.is_optimizer_expr(e.func.value, m, depth + 1)
            ent = self.ctx.project.resolve_expr(e.func, m, None)
            return isinstance(ent, ClassInfo) and self.lib.factory in ent.mro
        ent = self.ctx.project.resolve_expr(e, m, None)
        if isinstance(ent, ClassInfo):
            return self.lib.optimizer in ent.mro
        if isinstance(ent, ModVar):
            return any(self.is_optimizer_expr(v, ent.module, depth + 1) for v in ent.module.variables.get(ent.name, []))
        return False

    def select(self, f: FuncInfo, cls: ClassInfo, seq: int) -> None:
        key = (id(f.node), cls.fullname, seq)
        if key in self.done or id(f.node) in self.busy or f.is_generator:
            return
        self.done.add(key)
        self.busy.add(id(f.node))
        self.ctx.seen(f)
        flow = Select(self, f, cls)
        exits = flow.run(f.node, [(seq, frozenset())])
        name = f.fullname
        self.ctx.check("returns", not exits.falls, f"{name} end", f.loc(), "a path reaches the end without selecting an optimizer")
        kinds = {"undefined": "defined", "nothing": "returns", "kind": "kind", "parallel": "workers"}
        for (k, line), msg in flow.problems.items():
            fake = ast.Pass()
            fake.lineno = line
            self.ctx.bad(kinds[k], f"{name} {msg}", f.loc(fake), msg)
        for k in kinds.values():
            self.ctx.ok(k, name, max(flow.count, 1))
        self.busy.discard(id(f.node))


def length(e: tp.Optional[ast.expr], f: tp.Optional[FuncInfo], depth: int = 0) -> tp.Optional[tp.Tuple[str, int]]:
    """Symbolic length of a list: (name of a list or "", offset)."""
    if e is None or depth > 5:
        return None
    if isinstance(e, (ast.List, ast.Tuple)):
        return None if any(isinstance(x, ast.Starred) for x in e.elts) else ("", len(e.elts))
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        one, times = (e.left, e.right) if isinstance(e.left, (ast.List, ast.Tuple)) else (e.right, e.left)
        if isinstance(one, (ast.List, ast.Tuple)) and len(one.elts) == 1:
            return number(times)
        return None
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].ifs:
        it = e.generators[0].iter
        if isinstance(it, ast.Call) and ast.unparse(it.func) == "range" and len(it.args) == 1:
            return number(it.args[0])
        return length(it, f, depth + 1)
    if isinstance(e, ast.Name):
        vals = p12.local_values(f, e.id) if f is not None else []
        grown = f is None or any(
            (isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id)
            or (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == e.id and n.attr in ("append", "extend", "insert", "pop", "remove", "clear"))
            for n in walk_local(f.node)
        )
        if len(vals) == 1 and not grown:
            got = length(vals[0], f, depth + 1)
            if got is not None:
                return got
        return (e.id, 0)
    return None


def number(e: ast.expr) -> tp.Optional[tp.Tuple[str, int]]:
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return ("", e.value)
    if isinstance(e, ast.Call) and ast.unparse(e.func) == "len" and len(e.args) == 1 and isinstance(e.args[0], ast.Name):
        return (e.args[0].id, 0)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int):
        left = number(e.left)
        sign = 1 if isinstance(e.op, ast.Add) else -1
        return None if left is None else (left[0], left[1] + sign * e.right.value)
    if isinstance(e, ast.Name):
        return ("#" + e.id, 0)
    return None


def check_composites(rule: Rule) -> None:
    ctx, lib = rule.ctx, rule.lib
    ctx.rule("chain", "chains have one more optimizer than budgets, and known budget keywords", 10)
    ctx.rule("names", "optimizers looked up by name are registered", 1)
    ctx.rule("options", "factories get options they have, with values they accept", 20)
    ctx.rule("marked", "optimizers built from some which refuse several workers are marked as such", 10)
    chain = ctx.project.cls(OPT + ".optimizerlib", "_Chain").methods["__init__"]
    keywords: tp.Set[str] = set()
    for n in walk_local(chain.node):
        if isinstance(n, ast.Dict) and n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in n.keys):
            keywords |= {k.value for k in n.keys}  # type: ignore
    for m in lib.modules:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and ast.unparse(n.value).split(".")[-1] == "registry" and isinstance(n.slice, ast.Constant) and isinstance(n.ctx, ast.Load):
                ctx.check("names", n.slice.value in lib.registered, f"{m.name} registry[{n.slice.value!r}]", f"{m.relpath}:{n.lineno}", f"{n.slice.value!r} is not the name of a registered optimizer")
            if not isinstance(n, ast.Call):
                continue
            f = p12.enclosing(n)
            F = ctx.project.resolve_expr(n.func, m, f)
            if not isinstance(F, ClassInfo) or lib.factory not in F.mro or F is lib.factory:
                continue
            init = F.find_method("__init__")
            if init is None:
                continue
            where = f"{m.relpath}:{n.lineno}"
            label = f"{f.fullname if f is not None else m.name} {ast.unparse(n)[:80]}"
            names = [x.arg for x in init.params][1:]
            every = set(names) | {x.arg for x in init.node.args.kwonlyargs}
            if not any(isinstance(x, ast.Starred) for x in n.args):
                ctx.check("options", len(n.args) <= len(init.node.args.args) - 1, label + " positional", where, f"{F.node.name} is given {len(n.args)} positional options")
            b = p12.bind(n, names)
            for k, v in b.items():
                ctx.check("options", k in every or init.node.args.kwarg is not None, f"{label} option {k}", where, f"{F.node.name} has no option {k}")
                acc = p12.accepted(init, k)
                if acc is None:
                    alg = lib.algorithm(F)
                    ai = alg.find_method("__init__") if alg is not None else None
                    acc = p12.accepted(ai, k) if ai is not None else None
                if acc is not None and isinstance(v, ast.Constant) and isinstance(v.value, str) and not isinstance(getattr(acc[1], "test", None), ast.BoolOp):
                    ctx.check("options", v.value in acc[0], f"{label} option {k} value", where, f"{F.node.name} does not accept {k}={v.value!r} (accepted: {sorted(acc[0])})")
            for o in INNER.get(F.node.name, []):
                for x in lib.elements(F, n, o):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        ctx.check("names", x.value in lib.registered, f"{label} {x.value}", where, f"{x.value!r} is not the name of a registered optimizer")
            if F.node.name == "Chaining":
                opts, buds = length(b.get("optimizers"), f), length(b.get("budgets"), f)
                if opts is not None and buds is not None and opts[0] == buds[0]:
                    ctx.check("chain", opts[1] == buds[1] + 1, label + " lengths", where, f"a chain has {opts[1]} optimizers for {buds[1]} budgets" if not opts[0] else "a chain does not have one more optimizer than budgets")
                else:
                    ctx.notes.append(f"{where}: lengths of the chain not compared")
                for x in flat(b["budgets"]) if "budgets" in b else []:
                    if isinstance(x, ast.Constant):
                        good = x.value in keywords if isinstance(x.value, str) else isinstance(x.value, int) and x.value > 0
                        ctx.check("chain", good, f"{label} budget {x.value}", where, f"{x.value!r} is not a budget a chain understands ({sorted(keywords)} or a positive number)")
    # composites of sequential optimizers
    for m in lib.modules:
        for name, vals in m.variables.items():
            for v in vals[-1:]:
                if not (isinstance(v, ast.Call) and rule.is_optimizer_expr(v, m)):
                    continue
                need = lib.seq(v, m, None, flagged=False)
                if not need:
                    ctx.ok("marked", f"{m.name}:{name}")
                    continue
                F = v
                while isinstance(F, ast.Call) and isinstance(F.func, ast.Attribute) and F.func.attr == "set_name":
                    F = F.func.value  # type: ignore
                fac = ctx.project.resolve_expr(F.func, m, None) if isinstance(F, ast.Call) else None
                marked = lib.flags.get((m.name, name), False) or (isinstance(fac, ClassInfo) and lib.class_flag(fac))
                ctx.check("marked", marked, f"{m.name}:{name}", f"{m.relpath}:{v.lineno}", f"{name} cannot be built with several workers but is not marked as sequential ({FLAG})")


def check_cycles(rule: Rule) -> None:
    ctx, lib = rule.ctx, rule.lib
    ctx.rule("cycle", "no selector can select itself again", 10)
    edges: tp.Dict[str, tp.Set[str]] = {}
    infos: tp.Dict[str, ClassInfo] = {}
    for c in lib.optimizer.all_subclasses():
        f = c.find_method(SELECTOR)
        if f is None or ".test_" in c.module.name:
            continue
        infos[c.fullname] = c
        edges[c.fullname] = selected(rule, f, c, set())
    for name in edges:
        seen: tp.Set[str] = set()
        todo = list(edges[name])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo.extend(edges.get(x, ()))
        c = infos[name]
        ctx.check("cycle", name not in seen, name, c.find_method(SELECTOR).loc(), f"{c.node.name} can select itself again (through {sorted(x.split(':')[-1] for x in edges[name])}): the selection never ends")  # type: ignore


def selected(rule: Rule, f: FuncInfo, cls: ClassInfo, busy: tp.Set[tp.Any]) -> tp.Set[str]:
    """Selector classes this function may return as such (on the same problem)."""
    if (id(f.node), cls.fullname) in busy:
        return set()
    busy = busy | {(id(f.node), cls.fullname)}
    out: tp.Set[str] = set()

    def values(e: tp.Optional[ast.expr], depth: int = 0) -> tp.Iterator[ast.expr]:
        if e is None or depth > 8:
            return
        if isinstance(e, ast.IfExp):
            yield from values(e.body, depth + 1)
            yield from values(e.orelse, depth + 1)
        elif isinstance(e, ast.BoolOp):
            for v in e.values:
                yield from values(v, depth + 1)
        elif isinstance(e, ast.Name) and p12.local_values(f, e.id):
            for v in p12.local_values(f, e.id):
                yield from values(v, depth + 1)
        else:
            yield e

    for n in walk_local(f.node):
        if not isinstance(n, ast.Return):
            continue
        for e in values(n.value):
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Attribute) and e.func.attr == SELECTOR:
                    base = e.func.value
                    if isinstance(base, ast.Call) and f.cls is not None:
                        t = cls.find_method(SELECTOR, after=f.cls)
                    else:
                        ent = rule.ctx.project.resolve_expr(base, f.module, f)
                        t = ent.find_method(SELECTOR) if isinstance(ent, ClassInfo) else None
                    if t is not None:
                        out |= selected(rule, t, cls, busy)
                continue
            ent = rule.ctx.project.resolve_expr(e, f.module, f)
            if isinstance(ent, ClassInfo) and ent.find_method(SELECTOR) is not None:
                out.add(ent.fullname)
    return out


def check(ctx: Ctx) -> None:
    rule = Rule(ctx)
    ctx.rule("returns", "every exit of a selector returns something", 20)
    ctx.rule("defined", "no selector uses a variable which may be undefined", 20)
    ctx.rule("kind", "selectors return optimizer classes or factories", 20)
    ctx.rule("workers", "optimizers which refuse several workers are only selected when there is one", 20)
    for c in [rule.lib.optimizer] + rule.lib.optimizer.all_subclasses():
        f = c.methods.get(SELECTOR)
        if f is not None and ".test_" not in c.module.name:
            rule.select(f, c, 0)
    # what is built from the selection
    check_composites(rule)
    check_cycles(rule)
