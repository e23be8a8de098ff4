"""Optional packages are only needed by the features which are made of them."""
from __future__ import annotations

import sys

from .common import *

TECHNIQUE = "abstract execution of the import statements of all modules (order, guards, partially loaded modules), reachability of optional packages, and evaluation of the conditions above lazy imports under default options"
EXPLANATION = (
    "The import graph is executed abstractly from the top package: every module-level import, its guards and the names it leaves unbound. A module outside the declared feature packages must not need, "
    "directly or through another module, a package which is neither in the standard library nor in the mandatory requirements; names which a tolerated absence leaves unbound are only used under a guard; "
    "lazy imports of optional packages are reached by their own feature only; the parametrization layer imports nothing of the layers above."
)
ROOT = "nevergrad"
# import names of the mandatory distributions, and what those require themselves
NAMES = {"bayesian-optimization": "bayes_opt", "scikit-learn": "sklearn", "python-dateutil": "dateutil"}
TRANSITIVE = {
    "bayes_opt": ("numpy", "scipy", "sklearn", "colorama", "joblib", "threadpoolctl"),
    "pandas": ("numpy", "dateutil", "pytz", "tzdata", "six"),
    "cma": ("numpy",),
    "directsearch": ("numpy", "scipy"),
    "sklearn": ("numpy", "scipy", "joblib", "threadpoolctl"),
}
# the packages features are made of: module (with its submodules) -> what it may need
FEATURES: tp.Dict[str, tp.Set[str]] = {
    "nevergrad.optimization.externalbo": {"hyperopt"},
    "nevergrad.functions.causaldiscovery": {"networkx", "cdt"},
    "nevergrad.functions.control": {"gym", "mujoco", "torch"},
    "nevergrad.functions.gym": {"gym", "gym_anm", "pybullet_envs"},
    "nevergrad.functions.images": {"cv2", "PIL", "torch", "torchvision", "lpips", "imquality", "koncept"},
    "nevergrad.functions.mlda": {"requests", "PIL"},
    "nevergrad.functions.powersystems": {"matplotlib"},
    "nevergrad.functions.pyomo": {"pyomo"},
    "nevergrad.functions.rl": {"gym", "torch"},
    "nevergrad.functions.rocket": {"pyproj"},
    "nevergrad.functions.stsp": {"matplotlib"},
    "nevergrad.functions.ac": {"aquacrop"},
    "nevergrad.functions.iohprofiler": {"IOHexperimenter", "ioh"},
    "nevergrad.functions.mixsimulator": {"mixsimulator"},
    "nevergrad.functions.ml": {"tensorflow"},
    "nevergrad.functions.olympussurfaces": {"olympus"},
    "nevergrad.functions.photonics": {"autograd", "ceviche", "ceviche_challenges"},
}
LAZY_ONLY = ("nevergrad.functions.ac", "nevergrad.functions.iohprofiler", "nevergrad.functions.mixsimulator", "nevergrad.functions.ml", "nevergrad.functions.olympussurfaces", "nevergrad.functions.photonics")
# tolerated absences which one feature of the module relies on: (module, package)
TOLERATED = {("nevergrad.optimization.helpers", "torch"), ("nevergrad.common.testing", "pytest")}
# classes and functions which stand for one package
STANDS_FOR = {
    "bayesoptim": {"bayes_optim"},
    "ax": {"ax"},
    "pymoo": {"pymoo"},
    "hyperopt": {"hyperopt"},
    "hiplot": {"hiplot"},
    "progressbar": {"tqdm"},
    "nlopt": {"nlopt"},
    "bobyqa": {"pybobyqa"},
    "smac": {"smac", "ConfigSpace"},
    "pysot": {"poap", "pySOT"},
    "fcmaes": {"fcmaes"},
    "torch": {"torch"},
}
# modules which have to work without anything else
REQUIRED = ("nevergrad.parametrization", "nevergrad.optimization", "nevergrad.functions", "nevergrad.common", "nevergrad.ops")
UPPER = ("nevergrad.optimization", "nevergrad.benchmark", "nevergrad.functions")
# what scipy, cma and directsearch provide
PLAIN_METHODS = ("Nelder-Mead", "COBYLA", "SLSQP", "Powell", "BFGS", "RBFGS", "LBFGSB", "L-BFGS-B", "CmaFmin2", "DSbase", "DSproba", "DSsubspace", "DS3p", "PDS1")
CATCHES = {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}
UNBOUND = {"NameError", "Exception", "BaseException"}


def below(name: str, prefixes: tp.Iterable[str]) -> bool:
    return any(name == x or name.startswith(x + ".") for x in prefixes)


def mandatory(ctx: Ctx) -> tp.Set[str]:
    path = ctx.project.root / "requirements" / "main.txt"
    if not path.is_file():
        raise AnalysisBroken("requirements/main.txt not found")
    out: tp.Set[str] = set()
    todo = []
    for line in path.read_text(encoding="utf8").splitlines():
        line = line.split("#")[0].split(";")[0].strip()
        if line:
            dist = line
            for c in "<>=!~[ ":
                dist = dist.split(c)[0]
            todo.append(NAMES.get(dist.lower(), dist.replace("-", "_")))
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo.extend(TRANSITIVE.get(x, ()))
    return out


def catches(t: tp.Any, what: tp.Set[str]) -> bool:
    """The try statement survives: a handler for the error which does not raise again."""
    for h in t.handlers:
        names = [ast.unparse(x).rsplit(".", 1)[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ["Exception"]
        if any(n in what for n in names):
            return not any(isinstance(n, ast.Raise) for st in h.body for n in ([st] if isinstance(st, ast.Raise) else walk_local(st)))
    return False


def suppresses(w: tp.Any, what: tp.Set[str]) -> bool:
    for it in w.items:
        c = it.context_expr
        if isinstance(c, ast.Call) and ast.unparse(c.func).rsplit(".", 1)[-1] == "suppress" and any(ast.unparse(a).rsplit(".", 1)[-1] in what for a in c.args):
            return True
    return False


def typing_only(test: ast.expr) -> bool:
    return ast.unparse(test).rsplit(".", 1)[-1] == "TYPE_CHECKING"


class Loaded:
    def __init__(self) -> None:
        self.done = False
        self.bound: tp.Set[str] = {"__name__", "__file__", "__doc__", "__all__", "__path__"}
        # package -> (chain of places)
        self.needs: tp.Dict[str, tp.Tuple[str, ...]] = {}
        # name -> packages without which it is unbound
        self.maybe: tp.Dict[str, tp.Set[str]] = {}
        self.aliases: tp.Dict[str, str] = {}  # name -> module of the project


class Simulation:
    """Executes the import statements of the package."""

    def __init__(self, ctx: Ctx, required: tp.Set[str]) -> None:
        self.ctx = ctx
        self.mods = ctx.project.modules
        self.required = required
        self.state: tp.Dict[str, Loaded] = {}
        self.imports = 0
        self.problems: tp.List[tp.Tuple[str, str, str]] = []

    def external(self, dotted: str) -> tp.Optional[str]:
        top = dotted.split(".")[0]
        if top in sys.stdlib_module_names or top in self.required or top == "__future__":
            return None
        return top

    def load(self, name: str, needs: tp.Dict[str, tp.Tuple[str, ...]], where: str) -> tp.Optional[Loaded]:
        """Import of a module, parents first; what it needs is added to needs."""
        parts = name.split(".")
        st = None
        for i in range(1, len(parts) + 1):
            sub = ".".join(parts[:i])
            m = self.mods.get(sub)
            if m is None:
                if self.directory(sub) and i < len(parts):  # a namespace package
                    st = self.state.setdefault(sub, Loaded())
                    st.done = True
                    if i > 1:
                        self.state[".".join(parts[: i - 1])].bound.add(parts[i - 1])
                    continue
                if not self.test_module(sub):
                    self.problems.append((where, f"{where.rsplit(':', 1)[0]}: {sub}", f"imports {sub}, which does not exist"))
                return None
            st = self.state.get(sub)
            if st is None:
                st = self.state[sub] = Loaded()
                self.block(m, m.tree.body, st, st.needs)
                st.done = True
                if i > 1:
                    self.state[".".join(parts[: i - 1])].bound.add(parts[i - 1])
            for k, v in st.needs.items():
                needs.setdefault(k, (where,) + v)
        return st

    def test_module(self, name: str) -> bool:
        path = self.ctx.project.root.joinpath(*name.split("."))
        return path.with_suffix(".py").exists() or path.is_dir()

    def directory(self, name: str) -> bool:
        return self.ctx.project.root.joinpath(*name.split(".")).is_dir()

    def loc(self, m: tp.Any, n: ast.AST) -> str:
        return f"{m.relpath}:{getattr(n, 'lineno', 0)}"

    def block(self, m: tp.Any, body: tp.Sequence[ast.stmt], st: Loaded, needs: tp.Dict[str, tp.Tuple[str, ...]], cls: bool = False) -> None:
        for s in body:
            self.statement(m, s, st, needs, cls)

    def bind(self, st: Loaded, name: str, cls: bool) -> None:
        if not cls:
            st.bound.add(name)
            st.maybe.pop(name, None)
            st.aliases.pop(name, None)

    def statement(self, m: tp.Any, s: ast.stmt, st: Loaded, needs: tp.Dict[str, tp.Tuple[str, ...]], cls: bool) -> None:
        where = self.loc(m, s)
        if isinstance(s, ast.Import):
            for al in s.names:
                self.imports += 1
                if al.name.split(".")[0] == ROOT:
                    self.load(al.name, needs, where)
                    self.bind(st, (al.asname or al.name).split(".")[0], cls)
                    st.aliases[al.asname or ROOT] = al.name if al.asname else ROOT
                else:
                    pkg = self.external(al.name)
                    if pkg is not None:
                        needs.setdefault(pkg, (where,))
                    self.bind(st, (al.asname or al.name).split(".")[0], cls)
            return
        if isinstance(s, ast.ImportFrom):
            self.imports += 1
            mod = m._abs(s)
            if mod.split(".")[0] != ROOT:
                pkg = self.external(mod)
                if pkg is not None:
                    needs.setdefault(pkg, (where,))
                for al in s.names:
                    self.bind(st, al.asname or al.name, cls)
                return
            src = self.load(mod, needs, where)
            for al in s.names:
                if al.name == "*":
                    if src is not None:
                        for x in src.bound:
                            if not x.startswith("_"):
                                self.bind(st, x, cls)
                        for x, pk in src.maybe.items():
                            if not x.startswith("_"):
                                st.maybe[x] = set(pk)
                        st.aliases.update({k: v for k, v in src.aliases.items() if not k.startswith("_")})
                    continue
                name = al.asname or al.name
                known = src is not None and al.name in src.bound
                gone = set(src.maybe.get(al.name, ())) if src is not None else set()
                if src is None:
                    self.bind(st, name, cls)
                    continue
                if not known and not gone and f"{mod}.{al.name}" in self.mods:
                    self.load(f"{mod}.{al.name}", needs, where)
                if src is not st or not known:
                    self.bind(st, name, cls)
                if gone:
                    for pk in gone:
                        needs.setdefault(pk, (where, f"{mod}.{al.name} is unbound without it"))
                elif known:
                    if al.name in src.aliases:
                        st.aliases[name] = src.aliases[al.name]
                    elif f"{mod}.{al.name}" in self.mods and f"{mod}.{al.name}" in self.state:
                        st.aliases[name] = f"{mod}.{al.name}"
                elif f"{mod}.{al.name}" in self.mods:
                    st.aliases[name] = f"{mod}.{al.name}"
                elif not self.dynamic(mod):
                    self.problems.append((where, f"{m.name}: {mod}.{al.name}", f"imports {al.name} from {mod}, which {'has not defined it yet (import cycle)' if not src.done else 'does not define it'}"))
            return
        if isinstance(s, ast.If):
            if typing_only(s.test):
                return
            self.uses(m, s.test, st, needs)
            self.block(m, s.body, st, needs, cls)
            self.block(m, s.orelse, st, needs, cls)
            return
        if isinstance(s, ast.Try) and catches(s, CATCHES) or isinstance(s, (ast.With, ast.AsyncWith)) and suppresses(s, CATCHES):
            inner: tp.Dict[str, tp.Tuple[str, ...]] = {}
            before = set(st.bound)
            maybe = dict(st.maybe)
            self.block(m, s.body, st, inner, cls)
            new = (st.bound - before) | {x for x in st.maybe if x not in maybe}
            fallback: tp.Set[str] = set()
            for h in getattr(s, "handlers", []):
                hs = Loaded()
                hs.bound |= before
                hs.maybe, hs.aliases = dict(st.maybe), dict(st.aliases)
                n0 = set(hs.bound)
                self.block(m, h.body, hs, needs, cls)
                fallback |= {x for x in names_bound(h.body)} | (hs.bound - n0)
            if not cls:
                for x in new:
                    if inner and x not in fallback:
                        st.maybe[x] = set(inner)
                st.bound |= fallback
            if getattr(s, "orelse", []):
                self.block(m, s.orelse, st, inner, cls)
                for x in names_bound(s.orelse):
                    if inner and x not in fallback:
                        st.maybe[x] = set(inner)
            self.block(m, getattr(s, "finalbody", []), st, needs, cls)
            return
        if isinstance(s, (ast.Try, ast.With, ast.For, ast.While, ast.AsyncWith)):
            for field in ("items", "iter", "test"):
                v = getattr(s, field, None)
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, ast.withitem):
                        self.uses(m, x.context_expr, st, needs)
                    elif x is not None:
                        self.uses(m, x, st, needs)
            for x in names_bound([s]):
                self.bind(st, x, cls)
            self.block(m, s.body, st, needs, cls)
            for h in getattr(s, "handlers", []):
                self.block(m, h.body, st, needs, cls)
            self.block(m, getattr(s, "orelse", []), st, needs, cls)
            self.block(m, getattr(s, "finalbody", []), st, needs, cls)
            return
        if isinstance(s, ast.ClassDef):
            for x in s.bases + [k.value for k in s.keywords] + s.decorator_list:
                self.uses(m, x, st, needs)
            self.block(m, s.body, st, needs, True)
            self.bind(st, s.name, cls)
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = s.args
            now = list(s.decorator_list) + list(a.defaults) + [d for d in a.kw_defaults if d is not None]
            if "annotations" not in {al.name for n in m.tree.body if isinstance(n, ast.ImportFrom) and n.module == "__future__" for al in n.names}:
                now += [x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x is not None and x.annotation is not None] + ([s.returns] if s.returns is not None else [])
            for x in now:
                self.uses(m, x, st, needs)
            self.bind(st, s.name, cls)
            return
        self.uses(m, s, st, needs)
        for x in names_bound([s]):
            self.bind(st, x, cls)

    def dynamic(self, mod: str) -> bool:
        m = self.mods.get(mod)
        return m is not None and ("__getattr__" in m.functions or any(isinstance(n, ast.Call) and ast.unparse(n.func) in ("globals", "setattr") for n in ast.walk(m.tree)))

    def uses(self, m: tp.Any, n: ast.AST, st: Loaded, needs: tp.Dict[str, tp.Tuple[str, ...]]) -> None:
        for x in now_evaluated(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in st.maybe:
                for pk in st.maybe[x.id]:
                    needs.setdefault(pk, (self.loc(m, x), f"{x.id} is unbound without it"))
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                d = self.module_of(x.value, st)
                if d is None or self.dynamic(d):
                    continue
                src = self.state.get(d)
                if src is None:
                    continue
                if x.attr in src.maybe:
                    for pk in src.maybe[x.attr]:
                        needs.setdefault(pk, (self.loc(m, x), f"{d}.{x.attr} is unbound without it"))
                elif x.attr not in src.bound and not (f"{d}.{x.attr}" in self.state and self.state[f"{d}.{x.attr}"].done):
                    what = "has not defined it yet (import cycle)" if not src.done else "does not define it"
                    self.problems.append((self.loc(m, x), f"{m.name}: {d}.{x.attr}", f"uses {d}.{x.attr} at import time, but {d} {what}"))

    def module_of(self, e: ast.expr, st: Loaded) -> tp.Optional[str]:
        if isinstance(e, ast.Name):
            return st.aliases.get(e.id)
        if isinstance(e, ast.Attribute):
            d = self.module_of(e.value, st)
            if d is None:
                return None
            src = self.state.get(d)
            if src is not None and e.attr in src.aliases:
                return src.aliases[e.attr]
            if f"{d}.{e.attr}" in self.state:
                return f"{d}.{e.attr}"
        return None


def names_bound(body: tp.Sequence[ast.stmt]) -> tp.Set[str]:
    out: tp.Set[str] = set()
    for s in body:
        for n in [s] + list(walk_local(s)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(al.asname or al.name).split(".")[0] for al in n.names}
    return out


def now_evaluated(n: ast.AST) -> tp.Iterator[ast.AST]:
    """The nodes evaluated with the statement (not the bodies of lambdas)."""
    yield n
    for c in ast.iter_child_nodes(n):
        if not isinstance(c, ast.Lambda):
            yield from now_evaluated(c)


def check(ctx: Ctx) -> None:
    ctx.rule("needs-nothing-else", "importing a module outside the feature packages needs mandatory packages only", 20)
    ctx.rule("feature-needs", "a feature package needs what it is made of only", 3)
    ctx.rule("import-order", "an import finds what it names, whatever the import cycles", 50)
    ctx.rule("tolerated-absence", "a name left unbound by a tolerated absence is used under a guard only", 1)
    ctx.rule("lazy-in-feature", "a lazy import of an optional package is reached by its own feature only", 5)
    ctx.rule("layers", "the parametrization layer and the common tools import nothing of the layers above at import time", 10)
    required = mandatory(ctx)
    sim = Simulation(ctx, required)
    names = [n for n in sorted(ctx.project.modules) if n.startswith(ROOT) and ".examples." not in n]
    for name in [ROOT] + names:
        sim.load(name, {}, f"{ctx.project.modules[name].relpath}:0")
    for _ in range(sim.imports - len(sim.problems)):
        ctx.ok("import-order", "imports")
    for loc, construct, what in sim.problems:
        ctx.bad("import-order", construct, loc, what)
    for name in names:
        if not (name == ROOT or below(name, REQUIRED)):
            continue
        st = sim.state[name]
        feature = [k for k in FEATURES if below(name, (k,))]
        allowed: tp.Set[str] = set().union(*(FEATURES[k] for k in feature)) if feature and not below(name, LAZY_ONLY) else set()
        extra = {k: v for k, v in st.needs.items() if k not in allowed}
        m = ctx.project.modules[name]
        for k, chain in sorted(extra.items()):
            first = next((c for c in chain if ":" in c), f"{m.relpath}:1")
            ctx.bad("feature-needs" if allowed else "needs-nothing-else", f"{name}: {k}", first, f"importing {name} needs {k}, which is not a mandatory requirement", " <- ".join(chain))
        if not extra:
            ctx.ok("feature-needs" if allowed else "needs-nothing-else", name)
    check_uses(ctx, sim, names)
    check_lazy(ctx, sim, names)
    check_layers(ctx, names)


def ancestors_of(n: tp.Any) -> tp.Iterator[tp.Any]:
    while getattr(n, "_nv_parent", None) is not None:
        n = n._nv_parent
        yield n


def check_uses(ctx: Ctx, sim: Simulation, names: tp.List[str]) -> None:
    for name in names:
        st, m = sim.state[name], ctx.project.modules[name]
        if not st.maybe or not (name == ROOT or below(name, REQUIRED)):
            continue
        flags = fallback_flags(m)
        for f in m.all_functions:
            shadow = f.locals | {a.arg for a in f.params}
            for n in walk_local(f.node):
                if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in st.maybe) or n.id in shadow:
                    continue
                missing = {pk for pk in st.maybe[n.id] if (name, pk) not in TOLERATED and pk not in set().union(*(FEATURES[k] for k in FEATURES if below(name, (k,))), set())}
                if not missing or in_annotation(n):
                    ctx.ok("tolerated-absence", f.fullname)
                    continue
                guarded = any(isinstance(a, ast.Try) and any(n is x or n in ast.walk(x) for x in a.body) and catches(a, UNBOUND) for a in ancestors_of(n)) or tested(n, flags)
                ctx.check("tolerated-absence", guarded, f"{f.fullname}: {n.id}", f.loc(n), f"{n.id} is unbound when {', '.join(sorted(missing))} is not installed", "")
        for f in m.all_functions:  # bound to None instead
            for n in walk_local(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in flags["none"] and n.value.id not in f.locals:
                    ctx.check("tolerated-absence", tested(n, flags), f"{f.fullname}: {n.value.id}", f.loc(n), f"{n.value.id} is None when its package is not installed", "")


def in_annotation(n: ast.AST) -> bool:
    child: tp.Any = n
    for a in ancestors_of(n):
        if isinstance(a, ast.AnnAssign):
            return child is a.annotation
        if isinstance(a, ast.arg):
            return True
        if isinstance(a, ast.stmt):
            return isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef)) and child is a.returns
        child = a
    return False


def fallback_flags(m: tp.Any) -> tp.Dict[str, tp.Set[str]]:
    """Names which tell whether a guarded import succeeded."""
    out: tp.Dict[str, tp.Set[str]] = {"all": set(), "none": set()}
    for s in m.tree.body:
        if isinstance(s, ast.Try) and catches(s, CATCHES):
            for h in s.handlers:
                out["all"] |= names_bound(h.body)
                for x in h.body:
                    if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, ast.Constant) and x.value.value is None:
                        out["none"] |= names_bound([x])
    return out


def tested(n: ast.AST, flags: tp.Dict[str, tp.Set[str]]) -> bool:
    def mentions(t: ast.AST) -> bool:
        return any(isinstance(x, ast.Name) and x.id in flags["all"] for x in ast.walk(t)) or "globals()" in ast.unparse(t) or "sys.modules" in ast.unparse(t)

    child: tp.Any = n
    for a in ancestors_of(n):
        if isinstance(a, (ast.If, ast.IfExp)) and child is not a.test and mentions(a.test):
            return True
        if isinstance(a, ast.BoolOp) and any(mentions(v) for v in a.values[: a.values.index(child)] if v is not child):
            return True
        body = getattr(a, "body", None)
        if isinstance(body, list) and child in body:
            for s in body[: body.index(child)]:
                if isinstance(s, ast.Assert) and mentions(s.test) or isinstance(s, ast.If) and mentions(s.test) and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    return True
        child = a
    return False


# ---- lazy imports


class Options:
    """Value of a condition when every option has its default (None: unknown)."""

    def __init__(self, ctx: Ctx, f: FuncInfo, case: tp.Tuple[tp.Optional[str], int]) -> None:
        self.ctx, self.f, self.case = ctx, f, case
        self.busy: tp.Set[str] = set()

    def default(self, name: str) -> tp.Any:
        """Default of the keyword in the constructors of the module, when it is only stored as such."""
        if name == "method" and self.case[0] is not None:
            return self.case[0]
        if name == "dimension":
            return self.case[1]
        if name in self.busy:
            return Ellipsis
        self.busy.add(name)
        try:
            m = self.f.module
            out: tp.List[tp.Any] = []
            for f in m.all_functions:
                if f.name == "__init__":
                    a = f.node.args
                    pos = a.posonlyargs + a.args
                    for arg_, d in list(zip(pos[len(pos) - len(a.defaults) :], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                        if arg_.arg == name:
                            out.append(d.value if isinstance(d, ast.Constant) else Ellipsis)
            for f in m.all_functions:
                for n in walk_local(f.node):
                    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            if isinstance(t, ast.Attribute) and t.attr == name:
                                if isinstance(n, ast.AugAssign) or n.value is None:
                                    out.append(Ellipsis)
                                elif not (isinstance(n.value, ast.Name) and n.value.id == name and f.name == "__init__"):
                                    out.append(Options(self.ctx, f, self.case).merge(self.busy).value(n.value))
            if out and all(o == out[0] and o is not Ellipsis for o in out):
                return out[0]
            return Ellipsis
        finally:
            self.busy.discard(name)

    def merge(self, busy: tp.Set[str]) -> "Options":
        self.busy = busy
        return self

    def value(self, e: ast.expr) -> tp.Any:
        unknown = Ellipsis
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Attribute):
            return self.default(e.attr)
        if isinstance(e, ast.Name):
            defs = [n for n in walk_local(self.f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if len(defs) == 1 and ("=" + e.id) not in self.busy:
                self.busy.add("=" + e.id)
                try:
                    return self.value(defs[0].value)
                finally:
                    self.busy.discard("=" + e.id)
            if not defs and e.id in {a.arg for a in self.f.params}:
                return self.default(e.id)
            return unknown
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.value(e.operand)
            return unknown if v is unknown else not v
        if isinstance(e, ast.BoolOp):
            vals = [self.value(v) for v in e.values]
            stop = isinstance(e.op, ast.Or)
            for v in vals:
                if v is not unknown and bool(v) == stop:
                    return v
            return unknown if unknown in vals else vals[-1]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.value(e.left), self.value(e.comparators[0])
            if a is unknown or b is unknown:
                return unknown
            op = e.ops[0]
            try:
                if isinstance(op, (ast.Eq, ast.Is)):
                    return a == b
                if isinstance(op, (ast.NotEq, ast.IsNot)):
                    return a != b
                if isinstance(op, ast.In):
                    return a in b
                if isinstance(op, ast.NotIn):
                    return a not in b
            except TypeError:
                return unknown
            return unknown
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            vals = [self.value(v) for v in e.elts]
            return unknown if unknown in vals else vals
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            v = self.value(e.value)
            lo, hi = (self.value(x) if x is not None else None for x in (e.slice.lower, e.slice.upper))
            return unknown if unknown in (v, lo, hi) or not isinstance(v, str) or e.slice.step is not None else v[lo:hi]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("startswith", "endswith", "lower", "upper", "strip") and not e.keywords:
            v, args = self.value(e.func.value), [self.value(a) for a in e.args]
            args = [tuple(a) if isinstance(a, list) else a for a in args]
            return unknown if v is unknown or unknown in args or not isinstance(v, str) else getattr(v, e.func.attr)(*args)
        return unknown


def optional_imports(sim: Simulation, m: tp.Any) -> tp.Iterator[tp.Tuple[FuncInfo, tp.Any, str]]:
    for f in m.all_functions:
        for n in walk_local(f.node):
            mods = [al.name for al in n.names] if isinstance(n, ast.Import) else [m._abs(n)] if isinstance(n, ast.ImportFrom) else []
            for mod in mods:
                if mod.split(".")[0] == ROOT:
                    src = sim.state.get(mod)
                    for pk in src.needs if src is not None else ():
                        yield f, n, pk
                    for al in n.names if isinstance(n, ast.ImportFrom) and src is not None else ():
                        sub = sim.state.get(f"{mod}.{al.name}")
                        for pk in set(src.maybe.get(al.name, ())) | (set(sub.needs) if sub is not None else set()):
                            yield f, n, pk
                elif sim.external(mod) is not None:
                    yield f, n, sim.external(mod)  # type: ignore


def stands_for(f: FuncInfo, pkg: str) -> bool:
    words: tp.List[str] = [f.qualname]
    c = f.cls or next((x._nv_class for x in ancestors_of(f.node) if isinstance(x, ast.ClassDef) and hasattr(x, "_nv_class")), None)
    if c is not None:
        words += [b.name for b in c.mro]
    text = " ".join(words).lower().replace("_", "")
    for word, pkgs in STANDS_FOR.items():
        if pkg in pkgs and (word in text if len(word) > 2 else any(w.lower().strip("_").startswith(word) for x in words for w in x.split("."))):
            return True
    return False


def reached(ctx: Ctx, f: FuncInfo, n: tp.Any, depth: int = 0) -> tp.List[str]:
    """The cases (method, dimension) of the default options which may lead there."""
    out = []
    for method in PLAIN_METHODS if mentions_method(f, n) else (None,):
        for dimension in (5, 1):
            if excluded(ctx, f, n, (method, dimension)):
                continue
            if depth < 3 and f.name not in ("__init__", "_optimization_function"):
                sites = call_sites(ctx, f)
                if sites is not None and all(stands_for_any(g) or not reached(ctx, g, c, depth + 1) for g, c in sites):
                    continue
            out.append((f"method {method}" if method is not None else "default options") + (" in dimension 1" if dimension == 1 else ""))
            break
    return out


def stands_for_any(g: FuncInfo) -> bool:
    return any(stands_for(g, pk) for pks in STANDS_FOR.values() for pk in pks)


def call_sites(ctx: Ctx, f: FuncInfo) -> tp.Optional[tp.List[tp.Tuple[FuncInfo, ast.AST]]]:
    """The calls of a helper in its module (None: it is public or not called there)."""
    out = []
    for g in f.module.all_functions:
        for n in walk_local(g.node):
            if isinstance(n, ast.Call) and ast.unparse(n.func).rsplit(".", 1)[-1] == f.name:
                out.append((g, n))
            elif isinstance(n, ast.Attribute) and n.attr == f.name and not (isinstance(n._nv_parent, ast.Call) and n._nv_parent.func is n):  # type: ignore
                out.append((g, n))
            elif isinstance(n, ast.Name) and n.id == f.name and isinstance(n.ctx, ast.Load) and not (isinstance(n._nv_parent, ast.Call) and n._nv_parent.func is n):  # type: ignore
                out.append((g, n))
    return out or None


def mentions_method(f: FuncInfo, n: tp.Any) -> bool:
    return any(isinstance(x, ast.Attribute) and x.attr == "method" for x in walk_local(f.node))


def leaves(s: tp.Any) -> bool:
    return bool(s) and isinstance(s[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def excluded(ctx: Ctx, f: FuncInfo, n: tp.Any, case: tp.Tuple[tp.Optional[str], int]) -> bool:
    ev = Options(ctx, f, case)
    child = n
    for a in ancestors_of(n):
        if a is f.node:
            body = f.node.body
        else:
            body = None
        if isinstance(a, ast.If):
            v = ev.value(a.test)
            if v is not Ellipsis and (child in a.body and not v or child in a.orelse and v):
                return True
        if isinstance(a, ast.IfExp):
            v = ev.value(a.test)
            if v is not Ellipsis and (child is a.body and not v or child is a.orelse and v):
                return True
        for field in ("body", "orelse", "finalbody"):
            block = getattr(a, field, None)
            if isinstance(block, list) and child in block:
                for s in block[: block.index(child)]:
                    if isinstance(s, ast.If):
                        v = ev.value(s.test)
                        if v is not Ellipsis and (v and leaves(s.body) or not v and leaves(s.orelse)):
                            return True
        if a is f.node:
            break
        child = a
    # a table of the methods
    for a in ancestors_of(n):
        if isinstance(a, ast.Dict):
            return True
        if isinstance(a, ast.stmt):
            break
    return False


def check_lazy(ctx: Ctx, sim: Simulation, names: tp.List[str]) -> None:
    for name in names:
        if not (name == ROOT or below(name, REQUIRED)):
            continue
        m = ctx.project.modules[name]
        own: tp.Set[str] = set().union(*(FEATURES[k] for k in FEATURES if below(name, (k,))), set())
        for f, n, pkg in optional_imports(sim, m):
            where = f"{f.fullname}: {pkg}"
            if pkg in own or stands_for(f, pkg):
                ctx.ok("lazy-in-feature", where)
                continue
            if any(isinstance(a, ast.Try) and n in [x for s in a.body for x in ast.walk(s)] and catches(a, CATCHES) for a in ancestors_of(n)):
                ctx.ok("lazy-in-feature", where)
                continue
            ctx.ok("lazy-in-feature", where)
            for why in reached(ctx, f, n):
                ctx.bad("lazy-in-feature", f"{pkg} with {why}", f.loc(n), f"{f.fullname} needs {pkg} with {why}", "")


def check_layers(ctx: Ctx, names: tp.List[str]) -> None:
    mods = ctx.project.modules

    def direct(m: tp.Any) -> tp.Iterator[tp.Tuple[str, ast.AST]]:
        def walk(body: tp.Sequence[ast.stmt]) -> tp.Iterator[tp.Any]:
            for s in body:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    yield s
                elif isinstance(s, ast.If) and typing_only(s.test):
                    yield from walk(s.orelse)
                elif not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for field in ("body", "orelse", "finalbody"):
                        yield from walk(getattr(s, field, []) or [])
                    for h in getattr(s, "handlers", []):
                        yield from walk(h.body)

        for s in walk(m.tree.body):
            if isinstance(s, ast.Import):
                for al in s.names:
                    if al.name.split(".")[0] == ROOT:
                        yield al.name, s
            else:
                mod = m._abs(s)
                if mod.split(".")[0] == ROOT:
                    for al in s.names:
                        yield (f"{mod}.{al.name}" if f"{mod}.{al.name}" in mods else mod), s

    for name in names:
        if not below(name, ("nevergrad.parametrization", "nevergrad.common")):
            continue
        seen: tp.Dict[str, tp.Tuple[str, ...]] = {name: ()}
        todo = [name]
        bad = False
        while todo:
            cur = todo.pop()
            m = mods.get(cur)
            if m is None:
                continue
            for target, s in direct(m):
                chain = seen[cur] + (f"{m.relpath}:{s.lineno}",)  # type: ignore
                if below(target, UPPER):
                    if cur == name or not below(cur, ("nevergrad.parametrization", "nevergrad.common")):
                        bad = True
                        ctx.bad("layers", f"{name}: {target}", chain[0], f"{name} imports {target} at import time", " <- ".join(chain))
                    continue
                if target not in seen and target != ROOT:  # (the package itself is being imported already)
                    seen[target] = chain
                    todo.append(target)
        if not bad:
            ctx.ok("layers", name)
