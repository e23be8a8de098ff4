"""Seeding the parametrization makes a run reproducible."""
from __future__ import annotations

import re

from .common import *

TECHNIQUE = "whole-package provenance query over every random draw, generator construction, clock read and unordered iteration of the optimization and parametrization layers, with def-use tracking of the random state into samplers, sub-parametrizations and external solvers"
EXPLANATION = (
    "Every expression of the optimization and parametrization layers (function bodies, class bodies, module level, defaults) is resolved through the imports. "
    "References to the process-wide numpy and standard-library generators are only accepted to seed a new generator where no random state was given; generators are "
    "never built without a seed or from a clock, hash or identity; clocks are not read by algorithms; sets of hash-ordered elements are not iterated where the order "
    "shows. Callables which default to their own random state, external stochastic solvers, internally created parametrizations and sub-optimizers all receive a "
    "state which is derived from the one of the parametrization, and this state is propagated to all sub-parameters."
)
SCOPE = ("nevergrad.optimization", "nevergrad.parametrization")
SKIP = ("nevergrad.optimization.requirements_check",)
GENERATORS = {"RandomState", "Generator", "default_rng", "SeedSequence", "PCG64", "MT19937", "Philox", "SFC64", "BitGenerator", "PCG64DXSM", "Random", "SystemRandom"}
BUILDERS = {"RandomState", "default_rng", "Random", "SeedSequence", "PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM"}
STATE = re.compile(r"rand|rng|seed|state|gen")
RNG_NAMES = {"_rng", "random_state", "_random_state", "rng"}
RNG_PARAMS = {"random_state", "rng", "gen", "seed", "generator", "randgen", "random_seed"}
CLOCK = {
    "time.time", "time.time_ns", "time.monotonic", "time.monotonic_ns", "time.perf_counter", "time.perf_counter_ns", "time.process_time",
    "time.process_time_ns", "time.clock", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today",
    "os.getpid", "os.urandom", "os.times", "threading.get_ident",
}
IDENTITY = {"builtins.hash", "builtins.id", "uuid.uuid1", "uuid.uuid4", "os.urandom", "os.getpid", "time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "secrets.randbits", "secrets.token_bytes"}
# external stochastic APIs: where their random state is provided
#   ("beside", name): seeded by another call in the same function; ("kw", name): keyword argument; ("opt", keyword, key): entry of an options dictionary; ("pos", index); None: cannot be seeded through its interface
EXTERNAL: tp.Dict[str, tp.Any] = {
    "cma.CMAEvolutionStrategy": ("opt", "inopts", 2, "randn"),
    "cma.fmin": ("opt", "options", 3, "randn"),
    "cma.fmin2": ("opt", "options", 3, "randn"),
    "fcmaes.cmaes.Cmaes": ("kw", "randn"),
    "bayes_opt.BayesianOptimization": ("kw", "random_state"),
    "hyperopt.tpe.suggest": ("pos", 3),
    "hyperopt.fmin": ("kw", "rstate"),
    "sklearn.neural_network.MLPRegressor": ("kw", "random_state"),
    "sklearn.ensemble.RandomForestRegressor": ("kw", "random_state"),
    "sklearn.ensemble.ExtraTreesRegressor": ("kw", "random_state"),
    "sklearn.ensemble.GradientBoostingRegressor": ("kw", "random_state"),
    "sklearn.gaussian_process.GaussianProcessRegressor": ("kw", "random_state"),
    "sklearn.cluster.KMeans": ("kw", "random_state"),
    "sklearn.decomposition.PCA": ("kw", "random_state"),
    "pymoo.optimize.minimize": ("kw", "seed"),
    "pymoo.algorithms.soo.nonconvex.cmaes.CMAES": ("kw", "x0"),
    "ax.optimize": ("kw", "random_seed"),
    "ax.service.ax_client.AxClient": ("kw", "random_seed"),
    "bayes_optim.BO": ("kw", "random_seed"),
    "bayes_optim.extension.PCABO": ("kw", "random_seed"),
    "scipy.optimize.differential_evolution": ("kw", "seed"),
    "scipy.optimize.dual_annealing": ("kw", "seed"),
    "scipy.optimize.basinhopping": ("kw", "seed"),
    "scipy.stats.qmc.Sobol": ("kw", "seed"),
    "scipy.stats.qmc.Halton": ("kw", "seed"),
    "scipy.stats.qmc.LatinHypercube": ("kw", "seed"),
    "directsearch.solve_probabilistic_directsearch": None,
    "directsearch.solve_stp": None,
    "nlopt.opt": ("beside", "nlopt.srand"),
}


def check(ctx: Ctx) -> None:
    Query(ctx).run()
    propagation(ctx)


def enclosing(n: ast.AST) -> tp.Optional[FuncInfo]:
    """Function whose execution evaluates this node (defaults and decorators belong to the outer scope)."""
    child, cur = n, getattr(n, "_nv_parent", None)
    while cur is not None:
        f = getattr(cur, "_nv_func", None)
        if f is not None:
            body = cur.body if isinstance(cur.body, list) else [cur.body]
            if any(child is b for b in body):
                return f
        child, cur = cur, getattr(cur, "_nv_parent", None)
    return None


def ancestors(n: ast.AST) -> tp.Iterator[tp.Tuple[ast.AST, ast.AST]]:
    """(child, parent) pairs from the node up to the enclosing function."""
    cur = n
    while True:
        parent = getattr(cur, "_nv_parent", None)
        if parent is None:
            return
        yield cur, parent
        if getattr(parent, "_nv_func", None) is not None:
            return
        cur = parent


def stateless(test: ast.expr, positive: bool) -> bool:
    """Does the test (when True, or when False if not positive) imply that some random state is missing?"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        if positive and isinstance(test.operand, (ast.Name, ast.Attribute)):
            return bool(STATE.search(ast.unparse(test.operand)))
        return stateless(test.operand, not positive)
    if isinstance(test, ast.BoolOp):
        return isinstance(test.op, ast.And) == positive and any(stateless(v, positive) for v in test.values)
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        sides = [test.left, test.comparators[0]]
        none = [s for s in sides if isinstance(s, ast.Constant) and s.value is None]
        other = [s for s in sides if s not in none]
        if none and other and isinstance(test.ops[0], (ast.Is, ast.Eq) if positive else (ast.IsNot, ast.NotEq)):
            return bool(STATE.search(ast.unparse(other[0])))
    if isinstance(test, (ast.Name, ast.Attribute)) and not positive:
        return bool(STATE.search(ast.unparse(test)))
    return False


def leaves(body: tp.Sequence[ast.stmt]) -> bool:
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def guarded(n: ast.AST) -> bool:
    """Only evaluated where no random state was given."""
    for child, parent in ancestors(n):
        if isinstance(parent, ast.IfExp):
            if child is parent.body and stateless(parent.test, True) or child is parent.orelse and stateless(parent.test, False):
                return True
        if isinstance(parent, ast.BoolOp) and isinstance(parent.op, ast.Or):
            i = [k for k, v in enumerate(parent.values) if v is child][0]
            if any(STATE.search(ast.unparse(v)) for v in parent.values[:i]):
                return True
        if isinstance(parent, ast.If):
            if any(child is b for b in parent.body) and stateless(parent.test, True):
                return True
            if any(child is b for b in parent.orelse) and stateless(parent.test, False):
                return True
        for block in (getattr(parent, "body", None), getattr(parent, "orelse", None), getattr(parent, "finalbody", None)):
            if isinstance(block, list) and any(child is b for b in block):
                for st in block:
                    if st is child:
                        break
                    if isinstance(st, ast.If) and leaves(st.body) and stateless(st.test, False):
                        return True
    return False


class Query:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx, self.project = ctx, ctx.project
        self.modules = [m for m in self.project.modules.values() if m.name.startswith(SCOPE) and not m.name.startswith(SKIP)]
        self.nodes: tp.List[tp.Tuple[Module, tp.Optional[FuncInfo], ast.AST]] = []
        for m in self.modules:
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.expr, ast.stmt, ast.comprehension)):
                    self.nodes.append((m, enclosing(n), n))
            for f in m.all_functions:
                ctx.seen(f)
        self.assigns = [x for x in self.nodes if isinstance(x[2], (ast.Assign, ast.AnnAssign))]
        self.callers: tp.Dict[int, tp.List[tp.Tuple[ast.Call, Module, tp.Optional[FuncInfo]]]] = {}
        self.calls: tp.List[tp.Tuple[Module, tp.Optional[FuncInfo], ast.Call, tp.List[tp.Any]]] = []
        for m, f, n in self.nodes:
            if isinstance(n, ast.Call):
                targets = self.targets(n.func, m, f)
                self.calls.append((m, f, n, targets))
                for t in targets:
                    if isinstance(t, FuncInfo):
                        self.callers.setdefault(id(t.node), []).append((n, m, f))

    # -- resolution ---------------------------------------------------------
    def values(self, name: str, f: tp.Optional[FuncInfo], m: Module) -> tp.List[ast.expr]:
        """Expressions assigned to a variable in its scope."""
        scope = f
        while scope is not None and name not in scope.locals:
            scope = scope.parent
        if scope is None:
            return list(m.variables.get(name, []))
        out = []
        for n in walk_local(scope.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                out.append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                out.append(n.value)
            elif isinstance(n, ast.NamedExpr) and n.target.id == name:
                out.append(n.value)
        return out

    def targets(self, fn: ast.expr, m: Module, f: tp.Optional[FuncInfo], depth: int = 4) -> tp.List[tp.Any]:
        ent = self.project.resolve_expr(fn, m, f)
        if ent is None and f is not None and isinstance(fn, ast.Attribute):
            ent = self.project.call_target(ast.Call(func=fn, args=[], keywords=[]), f)
        if isinstance(ent, ModVar):
            ent = None
        if ent is not None:
            return [ent]
        if not depth:
            return []
        out: tp.List[tp.Any] = []
        if isinstance(fn, ast.Name):
            for v in self.values(fn.id, f, m):
                out += self.targets(v, m, f, depth - 1)
        elif isinstance(fn, ast.IfExp):
            out = self.targets(fn.body, m, f, depth - 1) + self.targets(fn.orelse, m, f, depth - 1)
        elif isinstance(fn, ast.Subscript):
            for d in self.expand(fn.value, m, f):
                if isinstance(d, ast.Dict):
                    for v in d.values:
                        out += self.targets(v, m, f, depth - 1)
                elif isinstance(d, (ast.List, ast.Tuple)):
                    for v in d.elts:
                        out += self.targets(v, m, f, depth - 1)
        return out

    def expand(self, e: ast.expr, m: Module, f: tp.Optional[FuncInfo]) -> tp.List[ast.expr]:
        return self.values(e.id, f, m) if isinstance(e, ast.Name) else [e]

    def dotted(self, e: ast.AST, m: Module, f: tp.Optional[FuncInfo]) -> tp.Optional[str]:
        if not isinstance(e, (ast.Name, ast.Attribute)):
            return None
        ent = self.project.resolve_expr(e, m, f)
        return ent.dotted if isinstance(ent, External) else None

    def where(self, m: Module, f: tp.Optional[FuncInfo]) -> str:
        return f"{m.name}:{f.qualname}" if f is not None else m.name

    # -- provenance ---------------------------------------------------------
    def derived(self, e: ast.expr, m: Module, f: tp.Optional[FuncInfo], depth: int = 5, seen: tp.FrozenSet[tp.Any] = frozenset()) -> bool:
        """Is this value drawn from (or is it) the random state of a parametrization?"""
        if depth < 0:
            return False
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr in RNG_NAMES:
                return True
            if isinstance(n, ast.Name):
                scope = f
                while scope is not None and n.id not in scope.locals:
                    scope = scope.parent
                if scope is not None and n.id in {a.arg for a in scope.params} and n.id in RNG_PARAMS:
                    return True
                if ("v", n.id) in seen:
                    continue
                vals = [v for v in self.values(n.id, f, m) if not (isinstance(v, ast.Constant) and v.value is None)]
                if vals and all(self.derived(v, m, f, depth - 1, seen | {("v", n.id)}) for v in vals):
                    return True
            if isinstance(n, ast.Attribute) and ("a", n.attr) not in seen:
                vals = self.attribute_values(n.attr, self.owner(n, f))
                live = [v for v, _, _ in vals if not isinstance(v, ast.Constant) and not isinstance(v, ast.UnaryOp)]
                if live and all(self.derived(v, mm, ff, depth - 1, seen | {("a", n.attr)}) for v, mm, ff in vals if v in live):
                    return True
        return False

    def attribute_values(self, attr: str, owner: tp.Optional[ClassInfo] = None) -> tp.List[tp.Tuple[ast.expr, Module, tp.Optional[FuncInfo]]]:
        """Values given to an attribute (by the classes related to the owner, if provided)."""
        out = []
        for m, f, n in self.assigns:
            if owner is not None and f is not None and f.cls is not None and not (owner.is_subclass_of(f.cls) or f.cls.is_subclass_of(owner)):
                continue
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in n.targets):
                out.append((n.value, m, f))
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == attr and n.value is not None:
                out.append((n.value, m, f))
        return out

    def owner(self, e: ast.Attribute, f: tp.Optional[FuncInfo]) -> tp.Optional[ClassInfo]:
        if isinstance(e.value, ast.Name) and e.value.id in ("self", "weakself"):
            while f is not None and f.cls is None and f.parent is not None:
                f = f.parent
            return f.cls if f is not None else None
        return None

    def builder(self, call: ast.AST, m: Module, f: tp.Optional[FuncInfo]) -> bool:
        if not isinstance(call, ast.Call):
            return False
        d = self.dotted(call.func, m, f)
        return d is not None and d.rsplit(".", 1)[-1] in BUILDERS and d.startswith(("numpy.random", "random."))

    def seeds_generator(self, n: ast.AST, m: Module, f: tp.Optional[FuncInfo], depth: int = 3) -> bool:
        """Is the value only used as the seed of a new generator?"""
        for child, parent in ancestors(n):
            if self.builder(parent, m, f) and child is not parent.func:  # type: ignore
                return True
            if isinstance(parent, (ast.Assign, ast.AnnAssign)) and f is not None:
                names = [t.id for t in (parent.targets if isinstance(parent, ast.Assign) else [parent.target]) if isinstance(t, ast.Name)]
                if not names or not depth:
                    return False
                loads = [x for x in walk_local(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names]
                return bool(loads) and all(self.seeds_generator(x, m, f, depth - 1) for x in loads)
            if isinstance(parent, ast.Return) and f is not None:
                sites = self.callers.get(id(f.node), [])
                return depth > 0 and bool(sites) and all(self.seeds_generator(c, mm, ff, depth - 1) for c, mm, ff in sites)
            if isinstance(parent, ast.stmt):
                return False
        return False

    def sanctioned(self, n: ast.AST, f: tp.Optional[FuncInfo], depth: int = 3) -> bool:
        if guarded(n):
            return True
        if f is None or not depth:
            return False
        sites = self.callers.get(id(f.node), [])
        return bool(sites) and f.name.startswith("_") and not f.name.startswith("__") and all(self.sanctioned(c, ff, depth - 1) for c, _, ff in sites)

    # -- rules ----------------------------------------------------------------
    def run(self) -> None:
        self.draws()
        self.builders()
        self.clocks()
        self.unordered()
        self.passing()
        self.external()
        self.created()

    def draws(self) -> None:
        ctx = self.ctx
        ctx.rule("own-random-state", "the process-wide generators are only used to seed a generator when no random state was given", 2)
        for m, f, n in self.nodes:
            d = self.dotted(n, m, f)
            if d is None:
                continue
            parent = getattr(n, "_nv_parent", None)
            if isinstance(parent, ast.Attribute) and parent.value is n:
                continue  # the full name is looked at
            parts = d.split(".")
            glob = False
            if d == "numpy.random" or d.startswith("numpy.random."):
                glob = not any(x in GENERATORS for x in parts[2:]) and parts[-1] not in ("mtrand", "bit_generator")
            elif d == "random" or d.startswith("random."):
                glob = not any(x in GENERATORS for x in parts[1:])
            elif d.startswith("secrets."):
                glob = True
            elif d.startswith("torch.") and (parts[-1].startswith(("rand", "normal", "bernoulli", "multinomial", "manual_seed"))):
                glob = True
            elif d.startswith("scipy.stats.") and parts[-1] == "rvs":
                glob = not (isinstance(parent, ast.Call) and any(k.arg == "random_state" and self.derived(k.value, m, f) for k in parent.keywords))
            if not glob:
                continue
            good = isinstance(parent, ast.Call) and parent.func is n and self.sanctioned(n, f) and self.seeds_generator(n, m, f)
            ctx.check(
                "own-random-state", good, f"{self.where(m, f)}: {d}", f"{m.relpath}:{n.lineno}",  # type: ignore
                f"{d} is the process-wide generator: seeding the parametrization does not determine what is drawn here",
            )

    def builders(self) -> None:
        ctx = self.ctx
        ctx.rule("seeded-generator", "generators are built from a seed, which is neither None nor taken from a clock, a hash or an identity", 3)
        for m, f, n in self.nodes:
            if not isinstance(n, ast.Call):
                continue
            reseed = isinstance(n.func, ast.Attribute) and n.func.attr == "seed" and self.derived(n.func.value, m, f)
            if not reseed and not self.builder(n, m, f):
                continue
            args = list(n.args) + [k.value for k in n.keywords]
            where, loc = self.where(m, f), f"{m.relpath}:{n.lineno}"
            if not args or all(isinstance(a, ast.Constant) and a.value is None for a in args):
                ctx.bad("seeded-generator", f"{where}: unseeded", loc, f"{ast.unparse(n)} takes its seed from the operating system")
                continue
            source = None
            for a in args:
                source = source or self.unstable(a, m, f)
            ctx.check("seeded-generator", source is None, f"{where}: {ast.unparse(n.func)}", loc, f"the seed of {ast.unparse(n)} comes from {source}")

    def unstable(self, e: ast.expr, m: Module, f: tp.Optional[FuncInfo], depth: int = 3) -> tp.Optional[str]:
        for n in ast.walk(e):
            d = self.dotted(n, m, f)
            if d in IDENTITY or d in CLOCK:
                return d
            if isinstance(n, ast.Name) and depth:
                for v in self.values(n.id, f, m):
                    out = self.unstable(v, m, f, depth - 1)
                    if out:
                        return out
        return None

    def clocks(self) -> None:
        ctx = self.ctx
        ctx.rule("no-clock", "algorithms and parametrizations do not read clocks (time limits belong to minimize and to user-provided callbacks)", 1)
        ctx.rule("no-identity-arithmetic", "hashes and identities are not used in computations", 0)
        base = optimizer(ctx)
        for m, f, n in self.nodes:
            if isinstance(n, ast.Call):
                for t in self.targets(n.func, m, f, 1):
                    if isinstance(t, FuncInfo) and t.module.name == "nevergrad.optimization.callbacks" and t.qualname == "EarlyStopping.timer" and m is not t.module:
                        ctx.bad("no-clock", f"{m.name}: {t.qualname}", f"{m.relpath}:{n.lineno}", "an algorithm stops a sub-optimization after some elapsed time")
            d = self.dotted(n, m, f)
            parent = getattr(n, "_nv_parent", None)
            if d is None or isinstance(parent, ast.Attribute) and parent.value is n:
                continue
            if d in CLOCK:
                owner = f
                while owner is not None and owner.parent is not None:
                    owner = owner.parent
                fine = m.name == "nevergrad.optimization.callbacks" or (owner is not None and owner.cls is base)
                ctx.check("no-clock", fine, f"{m.name}: {d}", f"{m.relpath}:{n.lineno}", f"{d} makes the run depend on the speed of the machine")  # type: ignore
            if d in ("builtins.hash", "builtins.id", "uuid.uuid4", "uuid.uuid1"):
                bad = False
                for child, par in ancestors(n):
                    if isinstance(par, ast.BinOp) and not isinstance(par.op, ast.Add) or isinstance(par, ast.BinOp) and d.startswith("builtins"):
                        bad = True
                    if isinstance(par, (ast.stmt, ast.Compare, ast.Dict, ast.Subscript)):
                        break
                ctx.check("no-identity-arithmetic", not bad, f"{self.where(m, f)}: {d}", f"{m.relpath}:{n.lineno}", f"{d} differs from one process to another")  # type: ignore

    # -- sets ---------------------------------------------------------------
    def is_set(self, e: ast.expr, m: Module, f: tp.Optional[FuncInfo], depth: int = 4) -> bool:
        if depth < 0:
            return False
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call):
            d = self.dotted(e.func, m, f)
            if d in ("builtins.set", "builtins.frozenset"):
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference", "copy"):
                return self.is_set(e.func.value, m, f, depth - 1)
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return self.is_set(e.left, m, f, depth - 1) or self.is_set(e.right, m, f, depth - 1)
        if isinstance(e, ast.Name):
            return any(self.is_set(v, m, f, depth - 1) for v in self.values(e.id, f, m))
        if isinstance(e, ast.Attribute):
            return any(self.is_set(v, mm, ff, depth - 2) for v, mm, ff in self.attribute_values(e.attr, self.owner(e, f)))
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body, m, f, depth - 1) or self.is_set(e.orelse, m, f, depth - 1)
        return False

    def integers(self, target: ast.expr, body: tp.Sequence[ast.AST], m: Module, f: tp.Optional[FuncInfo]) -> bool:
        """Loop variable only used as an index of a sequence: its elements are integers, iterated in a fixed order."""
        if not isinstance(target, ast.Name) or f is None:
            return False
        uses = [x for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == target.id and isinstance(x.ctx, ast.Load)]
        for u in uses:
            par = getattr(u, "_nv_parent", None)
            if not (isinstance(par, ast.Subscript) and par.slice is u):
                return False
            t = self.project.expr_type(par.value, f)
            if not (isinstance(t, tuple) and t[0] in ("list", "tuple") or isinstance(t, ClassInfo) and t.name == "Tuple"):
                return False
        return bool(uses)

    def unordered(self) -> None:
        ctx = self.ctx
        ctx.rule("no-hash-order", "the order of iteration over a set never shows", 1)
        free = {"builtins.sorted", "builtins.set", "builtins.frozenset", "builtins.len", "builtins.sum", "builtins.any", "builtins.all", "builtins.bool"}
        for m, f, n in self.nodes:
            if m.name == "nevergrad.optimization.callbacks":  # reporting only
                continue
            bad: tp.Optional[str] = None
            subject: tp.Optional[ast.expr] = None
            if isinstance(n, (ast.For, ast.AsyncFor)) and self.is_set(n.iter, m, f):
                subject = n.iter
                if not self.integers(n.target, n.body, m, f) and not self.commutative(n.body):
                    bad = "is iterated"
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
                for g in n.generators:
                    if self.is_set(g.iter, m, f):
                        subject = g.iter
                        par = getattr(n, "_nv_parent", None)
                        consumed = isinstance(par, ast.Call) and n in par.args and self.dotted(par.func, m, f) in free
                        consumed |= isinstance(par, ast.Call) and self.dotted(par.func, m, f) in ("builtins.min", "builtins.max") and not any(k.arg == "key" for k in par.keywords)
                        if not consumed:
                            bad = "is iterated in a comprehension"
            elif isinstance(n, ast.Call):
                d = self.dotted(n.func, m, f)
                if isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args and self.is_set(n.func.value, m, f):
                    subject, bad = n.func.value, "gives an arbitrary element"
                for a in n.args:
                    inner = a.value if isinstance(a, ast.Starred) else a
                    if not self.is_set(inner, m, f):
                        continue
                    subject = subject or inner
                    keyed = any(k.arg == "key" for k in n.keywords)
                    if d in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.enumerate", "builtins.zip", "builtins.map", "builtins.reversed", "numpy.array", "numpy.fromiter", "collections.deque"):
                        par = getattr(n, "_nv_parent", None)
                        if not (isinstance(par, ast.Call) and n in par.args and self.dotted(par.func, m, f) in free):
                            bad = f"is turned into an ordered collection by {ast.unparse(n.func)}"
                    elif d in ("builtins.max", "builtins.min") and keyed:
                        bad = f"decides which of the tied elements {ast.unparse(n.func)} returns"
                    elif isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "extend", "choice", "permutation", "fromiter"):
                        bad = f"is consumed in order by {n.func.attr}"
                    elif isinstance(a, ast.Starred):
                        bad = "is unpacked in order"
                    elif d == "builtins.sorted" and keyed:
                        bad = "decides the order of the elements with the same key"
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and self.is_set(n.value, m, f):
                subject, bad = n.value, "is appended in order"
            if subject is None:
                continue
            ctx.check(
                "no-hash-order", bad is None, f"{self.where(m, f)}: {ast.unparse(subject)[:60]}", f"{m.relpath}:{n.lineno}",  # type: ignore
                f"the set {ast.unparse(subject)[:80]} {bad}: its order depends on the hash seed of the process",
            )

    def commutative(self, body: tp.Sequence[ast.stmt]) -> bool:
        """The iterations only add to sets, discard or raise."""
        for st in body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr in ("add", "discard", "remove"):
                continue
            if isinstance(st, (ast.Raise, ast.Assert, ast.Pass, ast.Continue)):
                continue
            if isinstance(st, ast.Delete):
                continue
            if isinstance(st, ast.If) and self.commutative(st.body) and self.commutative(st.orelse):
                continue
            return False
        return True

    # -- random states handed over ---------------------------------------------
    def passing(self) -> None:
        ctx = self.ctx
        ctx.rule("state-handed-over", "whatever falls back to its own random state when it is given none, is given one by the optimizers", 4)
        for m, f, n, targets in self.calls:
            for t in targets:
                callee = t.find_method("__init__") if isinstance(t, ClassInfo) else t
                if not isinstance(callee, FuncInfo) or not callee.module.name.startswith(SCOPE) or callee.is_property:
                    continue
                a = callee.node.args
                pos = a.posonlyargs + a.args
                optional = {}
                for x, dflt in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                    if x.arg in RNG_PARAMS and isinstance(dflt, ast.Constant) and dflt.value is None:
                        optional[x.arg] = pos.index(x) if x in pos else -1
                for name, index in optional.items():
                    bound = 1 if isinstance(t, ClassInfo) or (callee.cls is not None and not callee.is_static) else 0
                    given = [k.value for k in n.keywords if k.arg == name]
                    if not given and index >= 0 and len(n.args) > index - bound and not any(isinstance(x, ast.Starred) for x in n.args):
                        given = [n.args[index - bound]]
                    if any(k.arg is None for k in n.keywords) and not given:
                        continue
                    good = bool(given) and self.derived(given[0], m, f)
                    ctx.check(
                        "state-handed-over", good, f"{self.where(m, f)}: {callee.qualname}({name})", f"{m.relpath}:{n.lineno}",
                        f"{callee.qualname} is not given the random state of the parametrization and draws from a state of its own",
                    )

    def option(self, e: ast.expr, key: str, m: Module, f: tp.Optional[FuncInfo], depth: int = 3) -> bool:
        """Does the options dictionary hold a derived value under this key?"""
        if depth < 0:
            return False
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                if isinstance(k, ast.Constant) and k.value == key and self.derived(v, m, f):
                    return True
                if k is None and self.option(v, key, m, f, depth - 1):
                    return True
            return False
        if isinstance(e, ast.Call) and self.dotted(e.func, m, f) == "builtins.dict":
            return any(k.arg == key and self.derived(k.value, m, f) for k in e.keywords) or any(self.option(a, key, m, f, depth - 1) for a in e.args)
        if isinstance(e, ast.Name) and f is not None:
            if any(self.option(v, key, m, f, depth - 1) for v in self.values(e.id, f, m)):
                return True
            for n in walk_local(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id and isinstance(t.slice, ast.Constant) and t.slice.value == key:
                            return self.derived(n.value, m, f)
        return False

    def external(self) -> None:
        ctx = self.ctx
        ctx.rule("external-solvers-seeded", "stochastic external solvers are given a random state derived from the one of the parametrization", 3)
        for m, f, n, targets in self.calls:
            for t in targets:
                if not isinstance(t, External) or t.dotted not in EXTERNAL:
                    continue
                spec = EXTERNAL[t.dotted]
                good = False
                if spec is not None and spec[0] == "kw":
                    good = any(k.arg == spec[1] and self.derived(k.value, m, f) for k in n.keywords)
                elif spec is not None and spec[0] == "pos":
                    good = len(n.args) > spec[1] and self.derived(n.args[spec[1]], m, f)
                elif spec is not None and spec[0] == "opt":
                    given = [k.value for k in n.keywords if k.arg == spec[1]] or n.args[spec[2]:spec[2] + 1]
                    good = bool(given) and self.option(given[0], spec[3], m, f)
                elif spec is not None and spec[0] == "beside" and f is not None:
                    good = any(
                        isinstance(x, ast.Call) and self.dotted(x.func, m, f) == spec[1] and bool(x.args) and self.derived(x.args[0], m, f) for x in walk_local(f.node)
                    )
                ctx.check(
                    "external-solvers-seeded", good, f"{m.name}: {t.dotted}", f"{m.relpath}:{n.lineno}",
                    f"{t.dotted} draws from the global generator or from a generator of its own",
                )

    # -- parametrizations and optimizers created on the way ----------------------
    def created(self) -> None:
        ctx = self.ctx
        ctx.rule("sub-parametrizations-share", "parametrizations and sub-optimizers created by an optimizer share its random state before they are used", 5)
        opt, par = optimizer(ctx), parameter(ctx)
        for m, f, n, targets in self.calls:
            if f is None or not m.name.startswith("nevergrad.optimization"):
                continue
            owner = f
            while owner.parent is not None:
                owner = owner.parent
            inside = owner.cls is not None and owner.cls.is_subclass_of(opt) or owner.cls is None and any(a.arg in RNG_PARAMS for a in owner.params)
            if not inside:
                continue
            construct = f"{self.where(m, f)}: {ast.unparse(n.func)}"
            loc = f"{m.relpath}:{n.lineno}"
            fresh = any(isinstance(t, ClassInfo) and t.is_subclass_of(par) for t in targets)
            if fresh:
                if self.from_int(n) or all(isinstance(t, ClassInfo) and t.name == "Constant" for t in targets):
                    ctx.ok("sub-parametrizations-share", construct)
                else:
                    ctx.check("sub-parametrizations-share", self.synchronized(n, m, f), construct, loc, "a new parametrization is created without the random state of the optimizer")
                continue
            kws = {k.arg for k in n.keywords}
            builds = bool(kws & {"num_workers", "budget"}) and not self.initializer(n) or any(isinstance(t, ClassInfo) and t.is_subclass_of(opt) for t in targets)
            if not builds or isinstance(n.func, ast.Attribute) and n.func.attr in ("minimize", "_select_optimizer_cls", "no_parallelization"):
                continue
            first = [k.value for k in n.keywords if k.arg == "parametrization"] or [a for a in n.args[:1] if not isinstance(a, ast.Starred)]
            if not first:
                continue
            if any(isinstance(t, ClassInfo) and not t.is_subclass_of(opt) for t in targets):
                continue
            if any(isinstance(t, FuncInfo) or isinstance(t, External) for t in targets):
                continue
            shared = self.shares(first[0], m, f)
            ctx.check(
                "sub-parametrizations-share", shared or self.synchronized(n, m, f), construct, loc,
                f"a sub-optimizer is built on {ast.unparse(first[0])}, which does not share the random state of the optimizer",
            )

    def initializer(self, n: ast.Call) -> bool:
        return isinstance(n.func, ast.Attribute) and n.func.attr == "__init__"

    def from_int(self, n: ast.AST) -> bool:
        for _, parent in ancestors(n):
            if isinstance(parent, (ast.If, ast.IfExp)):
                for x in ast.walk(parent.test):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "isinstance" and "parametrization" in ast.unparse(x.args[0]):
                        return True
        return False

    def shares(self, e: ast.expr, m: Module, f: FuncInfo, depth: int = 4) -> bool:
        if isinstance(e, ast.Attribute):
            return e.attr in ("parametrization", "_parametrization")
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "spawn_child", "sample", "freeze"):
            return self.shares(e.func.value, m, f, depth - 1)
        if isinstance(e, ast.Call) and self.dotted(e.func, m, f) in ("copy.copy",):
            return bool(e.args) and self.shares(e.args[0], m, f, depth - 1)
        if isinstance(e, ast.Name) and depth:
            scope: tp.Optional[FuncInfo] = f
            while scope is not None and e.id not in scope.locals:
                scope = scope.parent
            if scope is not None and e.id in {a.arg for a in scope.params} and e.id in ("parametrization", "param"):
                return True
            if self.state_set(e.id, f, m):
                return True
            vals = self.values(e.id, f, m)
            return bool(vals) and all(self.shares(v, m, f, depth - 1) for v in vals)
        return False

    def state_set(self, name: str, f: FuncInfo, m: Module) -> bool:
        """`name.random_state = <derived>` (or through its parametrization) in the function."""
        for n in walk_local(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == "random_state" and self.derived(n.value, m, f):
                        b = t.value
                        if isinstance(b, ast.Attribute) and b.attr in ("parametrization", "_parametrization"):
                            b = b.value
                        if isinstance(b, ast.Name) and b.id == name:
                            return True
        return False

    def synchronized(self, n: ast.AST, m: Module, f: FuncInfo) -> bool:
        """The created object is held by a variable (or a list) on which the random state is set."""
        names: tp.Set[str] = set()
        for child, parent in ancestors(n):
            if isinstance(parent, ast.Assign):
                names |= {t.id for t in parent.targets if isinstance(t, ast.Name)}
            elif isinstance(parent, (ast.AugAssign, ast.AnnAssign)) and isinstance(parent.target, ast.Name):
                names.add(parent.target.id)
            elif isinstance(parent, ast.Call) and isinstance(parent.func, ast.Attribute) and parent.func.attr in ("append", "extend", "insert") and isinstance(parent.func.value, ast.Name):
                names.add(parent.func.value.id)
            if isinstance(parent, ast.stmt):
                break
        for _ in range(2):  # elements of a list, enumerated or not
            for x in walk_local(f.node):
                if isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(x.iter)):
                    names |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
        return any(self.state_set(name, f, m) for name in names)


def propagation(ctx: Ctx) -> None:
    """The random state of a parametrization is the one of all its sub-parameters and of its children."""
    project = ctx.project
    par = parameter(ctx)
    ctx.rule("state-propagates", "setting or initializing the random state of a parameter sets it on all its sub-parameters", 2)
    setter = par.find_method("_set_random_state")
    if setter is None:
        raise AnalysisBroken("Parameter._set_random_state not found")
    for cls in [par] + par.all_subclasses():
        own = cls.methods.get("_set_random_state")
        if own is None or cls.module.name.startswith("nevergrad.functions"):
            continue
        state = ("param", own.params[1].arg)
        for p in ctx.paths(own, P(opaque=CONTRACT | {"apply", "_set_random_state"}), cls):
            if p.kind == "raise":
                continue
            here = any(e.kind == "setattr" and e.data["name"] == "_random_state" and e.data["base"] == SELF and e.data["value"] == state for e in p.events)
            subs = any(e.kind == "call" and short(e) == "apply" and state in tuple(e.data["args"]) and const("_set_random_state") in tuple(e.data["args"]) for e in p.events)
            subs |= any(e.kind == "call" and short(e) == "_set_random_state" and e.data["recv"] != SELF for e in p.events)
            sup = any(e.kind == "call" and short(e) == "_set_random_state" and e.data["recv"] == SELF for e in p.events)
            ctx.check("state-propagates", here and subs or sup, f"{cls.name}._set_random_state", own.loc(), "the random state is not set on the parameter and on all its sub-parameters", path_note(p))
    getter = par.find_method("random_state")
    if getter is None:
        raise AnalysisBroken("Parameter.random_state not found")
    for p in ctx.paths(getter, P(opaque=(CONTRACT - {"random_state"}) | {"_set_random_state", "apply"}), par):
        if p.kind != "return":
            continue
        sets = [e for e in p.events if e.kind == "call" and short(e) == "_set_random_state"] + [
            e for e in p.events if e.kind == "setattr" and e.data["name"] == "random_state"
        ]
        direct = [e for e in p.events if e.kind == "setattr" and e.data["name"] == "_random_state"]
        missing = any(b and t == ("cmp", "is", attr("_random_state"), NONE) or not b and t == ("truth", attr("_random_state")) for t, b in p.conds)
        good = not direct and (bool(sets) or not missing)
        ctx.check("state-propagates", good, "Parameter.random_state", getter.loc(), "the random state is initialized without being shared with the sub-parameters", path_note(p))
    ctx.rule("state-writers", "nothing else replaces the random state of a parameter", 2)
    for m in project.modules.values():
        if m.name.startswith("nevergrad.benchmark"):
            continue
        for f in m.all_functions:
            for n in walk_local(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute) and t.attr == "_random_state":
                            fine = f.name in ("_set_random_state", "__init__") or (isinstance(n.value, ast.Attribute) and n.value.attr in ("_random_state", "random_state"))
                            ctx.check("state-writers", fine, f.fullname, f.loc(n), "_random_state is replaced without propagation to the sub-parameters")
    ctx.rule("children-share", "copies and children share the random state of their origin, which is initialized before they are made", 1)
    for name in ("copy", "spawn_child"):
        for cls in [par] + par.all_subclasses():
            own = cls.methods.get(name)
            if own is None or not cls.module.name.startswith("nevergrad.parametrization"):
                continue
            for p in ctx.paths(own, P(opaque=CONTRACT | {"_set_random_state", "apply"}, max_depth=0), cls):
                for e in p.events:
                    if e.kind == "setattr" and e.data["name"] in ("random_state", "_random_state"):
                        v = e.data["value"]
                        ctx.check("children-share", v in (attr("random_state"), attr("_random_state")), f"{cls.name}.{name}", own.loc(), "the copy gets another random state", path_note(p))
    spawn, copy = par.find_method("spawn_child"), par.find_method("copy")
    if spawn is None or copy is None:
        raise AnalysisBroken("Parameter.spawn_child or Parameter.copy not found")
    ctx.check(
        "children-share", initialized_before_copy(spawn, par) or initialized_before_copy(copy, par), "Parameter.spawn_child", spawn.loc(),
        "the random state is not initialized before the copy: the parent and the child get different ones",
    )
    ctx.rule("container-shares", "sub-parameters added to a container get its random state", 1)
    container = project.cls("nevergrad.parametrization.container", "Container")
    setitem = container.find_method("__setitem__")
    if setitem is None:
        raise AnalysisBroken("Container.__setitem__ not found")
    for p in ctx.paths(setitem, P(opaque=CONTRACT | {"_sanity_check", "as_parameter", "_check_frozen", "_set_random_state"}), container):
        if p.kind == "raise":
            continue
        none = any(b and t == ("cmp", "is", attr("_random_state"), NONE) or not b and t == ("truth", attr("_random_state")) for t, b in p.conds)
        given = any(
            e.kind == "setattr" and e.data["name"] == "random_state" and e.data["value"] in (attr("random_state"), attr("_random_state"))
            or e.kind == "call" and short(e) == "_set_random_state" and e.data["recv"] != SELF and e.data["args"] and e.data["args"][0] in (attr("random_state"), attr("_random_state"))
            for e in p.events
        )
        ctx.check("container-shares", none or given, "Container.__setitem__", setitem.loc(), "the added sub-parameter keeps its own random state", path_note(p))


def initialized_before_copy(f: FuncInfo, cls: ClassInfo) -> bool:
    """The random state is read (hence initialized) before the object is copied."""

    def reads(root: ast.AST, depth: int) -> tp.List[int]:
        out = []
        for n in walk_local(root):
            if isinstance(n, ast.Attribute) and n.attr == "random_state" and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                out.append(n.lineno)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == "random_state":
                out.append(n.lineno)
            elif depth and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.func.attr != "copy":
                m = cls.find_method(n.func.attr)
                if m is not None and reads(m.node, 0):
                    out.append(n.lineno)
        return out

    copies = [n.lineno for n in walk_local(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy"]
    before = reads(f.node, 1)
    return bool(before) and bool(copies) and min(before) <= min(copies)
