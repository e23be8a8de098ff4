"""A seeded experiment plan is entirely determined by its seed."""
from __future__ import annotations

from .common import *
from .p12 import bind, defaults, local_values, parent

TECHNIQUE = "def-use analysis of the seed given to every experiment of every plan, effect analysis of the plans (draws, unordered iterations, shared state), and path analysis of the seeding of a run"
EXPLANATION = (
    "For every Experiment built in the benchmark plans, the seed argument is traced back to a fresh next() of a generator created, once and outside of any loop, by create_seed_generator from the seed of the plan, and every call of another plan passes a seed on. "
    "No plan draws from a global or unseeded generator, from the time or from hashes, iterates over a set in hash order, or modifies module state. On every path of a run, numpy, random and torch are seeded with the experiment's "
    "seed before the function is copied and the optimizer built, and are not seeded otherwise; create_seed_generator draws from its own generator, and the chunks give each repetition its seed."
)
PLANS = ("nevergrad.benchmark.experiments", "nevergrad.benchmark.frozenexperiments", "nevergrad.benchmark.gymexperiments", "nevergrad.benchmark.optgroups")
XP = "nevergrad.benchmark.xpbase"
OTHER = ("time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "time.process_time", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "uuid.uuid1", "uuid.uuid4", "os.urandom", "os.getpid", "secrets.")
BUILTIN = ("hash", "id")


def owner(f: FuncInfo) -> FuncInfo:
    while f.parent is not None:
        f = f.parent
    return f


def loops_of(n: ast.AST, f: FuncInfo) -> tp.List[ast.AST]:
    out = []
    cur = parent(n)
    while cur is not None and cur is not f.node:
        if isinstance(cur, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.FunctionDef, ast.Lambda)):
            out.append(cur)
        cur = parent(cur)
    return out


class Seeds:
    def __init__(self, ctx: Ctx) -> None:
        self.ctx, self.project = ctx, ctx.project
        self.experiment = ctx.project.cls(XP, "Experiment")
        self.creator = ctx.project.func(XP, "create_seed_generator")
        self.functions = [f for f in ctx.project.functions(PLANS) if not isinstance(f.node, ast.Lambda) and ".test_" not in f.module.name]
        # functions which produce experiments (directly or through another one)
        self.plans: tp.Dict[str, FuncInfo] = {}
        direct = {f.fullname for f in self.functions for n in walk_local(f.node) if isinstance(n, ast.Call) and self.is_experiment(n, f)}
        changed = True
        known = set(direct)
        while changed:
            changed = False
            for f in self.functions:
                if f.fullname in known:
                    continue
                for n in walk_local(f.node):
                    if isinstance(n, ast.Call):
                        t = self.project.call_target(n, f)
                        if isinstance(t, FuncInfo) and t.fullname in known:
                            known.add(f.fullname)
                            changed = True
        self.plans = {f.fullname: f for f in self.functions if f.fullname in known}
        for f in list(self.plans.values()):
            if f.parent is not None and owner(f).fullname not in self.plans:
                self.plans[owner(f).fullname] = owner(f)

    def is_experiment(self, n: ast.Call, f: FuncInfo) -> bool:
        return self.project.resolve_expr(n.func, f.module, f) is self.experiment

    def params(self, f: FuncInfo) -> tp.List[str]:
        return [x.arg for x in f.params + f.node.args.kwonlyargs]

    def visible(self, name: str, f: FuncInfo) -> tp.Optional[FuncInfo]:
        g: tp.Optional[FuncInfo] = f
        while g is not None:
            if name in self.params(g) or local_values(g, name):
                return g
            g = g.parent
        return None

    # ---- seed generators
    def generator(self, e: ast.expr, f: FuncInfo, d: int = 0) -> tp.Optional[str]:
        """None when this is a seed generator of the plan, otherwise what is wrong."""
        if isinstance(e, ast.Call):
            t = self.project.call_target(e, f)
            if t is self.creator:
                given = bind(e, [x.arg for x in self.creator.params])
                s = given.get(self.creator.params[0].arg)
                if s is None or not self.from_seed(s, f):
                    return "the seed generator is not created from the seed of the plan"
                if loops_of(e, f):
                    return "the seed generator is created again in a loop: experiments share their seeds"
                return None
            return "it does not come from create_seed_generator"
        if isinstance(e, ast.Name) and d < 4:
            g = self.visible(e.id, f)
            if g is None:
                return "it does not come from create_seed_generator"
            vals = local_values(g, e.id)
            if e.id in self.params(g) and not vals:
                sites = self.sites(g)
                for caller, call in sites:
                    given = bind(call, [x.arg for x in g.params])
                    if e.id in given:
                        bad = self.generator(given[e.id], caller, d + 1)
                        if bad:
                            return bad
                return None if sites else "it does not come from create_seed_generator"
            for v in vals:
                bad = self.generator(v, g, d + 1)
                if bad:
                    return bad
            return None
        return "it does not come from create_seed_generator"

    def sites(self, g: FuncInfo) -> tp.List[tp.Tuple[FuncInfo, ast.Call]]:
        return [(f, n) for f in self.functions for n in walk_local(f.node) if isinstance(n, ast.Call) and self.project.call_target(n, f) is g]

    def from_seed(self, e: ast.expr, f: FuncInfo, d: int = 0) -> bool:
        """The value depends on the seed parameter of the plan (or on its seed generator), and on no constant instead."""
        if isinstance(e, ast.Name):
            g = self.visible(e.id, f)
            if g is None:
                return False
            if e.id in self.params(g):
                for v in local_values(g, e.id):
                    if not any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(v)) and (d > 3 or not self.from_seed(v, g, d + 1)):
                        return False  # overwritten
                return e.id == "seed" or any(self.from_seed(bind(c, [x.arg for x in g.params])[e.id], h, d + 1) for h, c in self.sites(g) if e.id in bind(c, [x.arg for x in g.params])) if d < 3 else False
            vals = local_values(g, e.id)
            return d < 4 and bool(vals) and all(self.from_seed(v, g, d + 1) for v in vals)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "next" and e.args:
                return self.generator(e.args[0], f) is None
            return any(self.from_seed(a, f, d + 1) for a in list(e.args) + [k.value for k in e.keywords]) and d < 4
        if isinstance(e, ast.BinOp):
            return self.from_seed(e.left, f, d + 1) or self.from_seed(e.right, f, d + 1)
        if isinstance(e, ast.IfExp):
            none = [x for x in (e.body, e.orelse) if isinstance(x, ast.Constant) and x.value is None]
            return all(self.from_seed(x, f, d + 1) for x in (e.body, e.orelse) if x not in none) and len(none) < 2
        return False

    def fresh(self, e: tp.Optional[ast.expr], f: FuncInfo, at: ast.AST, d: int = 0) -> tp.Optional[str]:
        """None when the value is a seed drawn for this experiment only."""
        if e is None:
            return "no seed is given"
        if isinstance(e, ast.Constant):
            return f"the seed is {e.value!r}"
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "next" and e.args:
            bad = self.generator(e.args[0], f)
            return bad
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "__next__":
            return self.generator(e.func.value, f)
        if isinstance(e, ast.Name) and d < 4:
            g = self.visible(e.id, f)
            if g is None:
                return "the seed is not drawn from the seed generator of the plan"
            vals = local_values(g, e.id)
            if vals:
                here = loops_of(at, g)
                for v in vals:
                    bad = self.fresh(v, g, v, d + 1)
                    if bad:
                        return bad
                    if loops_of(v, g) != here:
                        return "the seed is drawn outside of the loop which builds the experiments: they share it"
                uses = [n for n in walk_local(g.node) if isinstance(n, ast.Call) and self.is_experiment(n, g) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(n))]
                blocks = {id(parent(parent(n))) for n in uses}
                if len(uses) > 1 and len(blocks) < len(uses):
                    return "the same seed is given to several experiments"
                return None
            if e.id in self.params(g) and g is not self.plans.get("") and not self.registered(g):
                sites = self.sites(g)
                for caller, call in sites:
                    bad = self.fresh(bind(call, [x.arg for x in g.params]).get(e.id) or defaults(g).get(e.id), caller, call, d + 1)
                    if bad:
                        return bad
                if loops_of(at, g):
                    return "the same seed is given to several experiments"
                return None if sites else "the seed is not drawn from the seed generator of the plan"
            return "the seed of the plan itself is given to the experiment: all its experiments share it"
        return "the seed is not drawn from the seed generator of the plan"

    @staticmethod
    def registered(f: FuncInfo) -> bool:
        return any(x.endswith("registry.register") or x.endswith("registry.register_with_info") or ".register" in x for x in f.decorators)


def check(ctx: Ctx) -> None:
    ctx.rule("own-seed", "every experiment gets its own seed, drawn from the seed generator of its plan", 20)
    ctx.rule("passed-on", "a plan built from another plan gives it its seed", 20)
    ctx.rule("draws", "a plan makes no draw from a global or unseeded generator, and reads no clock, process or hash", 50)
    ctx.rule("order", "the order of the experiments does not depend on hashes or on state left by previous plans", 50)
    ctx.rule("run", "a seeded run seeds numpy, random and torch with its seed before copying the function and building the optimizer, other runs seed nothing", 2)
    ctx.rule("generator", "the seed generator draws from its own generator, seeded by the seed of the plan, and the chunks seed their plans", 3)
    s = Seeds(ctx)
    names = [x.arg for x in s.experiment.find_method("__init__").params][1:]  # type: ignore
    for f in s.functions:
        ctx.seen(f)
        for n in walk_local(f.node):
            if not isinstance(n, ast.Call):
                continue
            if s.is_experiment(n, f):
                given = bind(n, names)
                if any(k.arg is None for k in n.keywords) and "seed" not in given:
                    continue  # **kwargs: unknown
                bad = s.fresh(given.get("seed"), f, n)
                ctx.check("own-seed", bad is None, f"{owner(f).qualname}", f.loc(n), f"an experiment of {owner(f).qualname} has no seed of its own: {bad}", ast.unparse(n)[:300])
                continue
            t = s.project.call_target(n, f)
            if isinstance(t, FuncInfo) and t.fullname in s.plans and t.parent is None and "seed" in s.params(t) and t is not f:
                given = bind(n, [x.arg for x in t.params])
                if any(k.arg is None for k in n.keywords):
                    continue
                ok = "seed" in given and s.from_seed(given["seed"], f)
                ctx.check("passed-on", ok, f"{owner(f).qualname}: {t.qualname}", f.loc(n), f"{owner(f).qualname} builds its experiments with the plan {t.qualname} without giving it a seed derived from its own", ast.unparse(n)[:300])
        draws(ctx, s, f)
        order(ctx, s, f)
    ctx.notes.append(f"{len(s.plans)} functions producing experiments, {sum(1 for f in s.functions if s.registered(f))} registered functions in {len(PLANS)} modules")
    check_run(ctx)
    check_generator(ctx)


def live(n: ast.AST, f: FuncInfo) -> bool:
    """Not under `if False` / `if 0`."""
    cur, child = parent(n), n
    while cur is not None and cur is not f.node:
        if isinstance(cur, ast.If) and isinstance(cur.test, ast.Constant) and not cur.test.value and child in cur.body:
            return False
        cur, child = parent(cur), cur
    return True


def run_by_plan(f: FuncInfo) -> bool:
    """A nested function runs with the plan if the plan calls it (otherwise it is an objective, run by the experiments)."""
    while f.parent is not None:
        g = f.parent
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name for n in walk_local(g.node)):
            return False
        f = g
    return f.cls is None


def draws(ctx: Ctx, s: Seeds, f: FuncInfo) -> None:
    if not run_by_plan(f):
        return
    found: tp.Dict[str, tp.List[ast.Call]] = {}
    for n in walk_local(f.node):
        if not isinstance(n, ast.Call) or not live(n, f):
            continue
        ent = s.project.resolve_expr(n.func, f.module, f)
        dotted = ent.dotted if isinstance(ent, External) else n.func.id if isinstance(n.func, ast.Name) and ent is None else ""
        dotted = dotted.replace("builtins.", "")
        bad = ""
        if dotted.startswith(("numpy.random.", "random.")):
            last = dotted.rsplit(".", 1)[-1]
            if last in ("RandomState", "default_rng", "Generator", "Random", "SeedSequence", "PCG64", "MT19937"):
                a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "seed"), None)
                if a is None or isinstance(a, ast.Constant) and a.value is None:
                    bad = f"an unseeded generator ({dotted})"
            elif last == "seed" and n.args and s.from_seed(n.args[0], f):
                pass
            else:
                bad = f"the global generator ({dotted})"
        elif dotted.startswith(OTHER) or dotted in BUILTIN:
            bad = dotted
        if bad:
            found.setdefault(bad, []).append(n)
    for bad, ns in found.items():
        where = ", ".join(str(n.lineno) for n in ns)
        ctx.bad("draws", f"{owner(f).qualname}: {bad} x{len(ns)}", f.loc(ns[0]), f"the plan {owner(f).qualname} depends on {bad} (lines {where}): it is not determined by its seed", "\n".join(ast.unparse(n)[:120] for n in ns))
    if not found:
        ctx.ok("draws", f.qualname)


def is_set(e: ast.expr, f: FuncInfo, d: int = 0) -> bool:
    """A set whose order depends on hashes (not only numbers)."""
    if isinstance(e, ast.Set):
        return not all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in e.elts)
    if isinstance(e, ast.SetComp):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
        return bool(e.args)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(e.left, f, d) or is_set(e.right, f, d)
    if isinstance(e, ast.Name) and d < 3:
        return any(is_set(v, f, d + 1) for v in local_values(f, e.id))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference", "symmetric_difference", "copy"):
        return is_set(e.func.value, f, d)
    return False


def order(ctx: Ctx, s: Seeds, f: FuncInfo) -> None:
    if not run_by_plan(f):
        return
    found = False
    for n in walk_local(f.node):
        its: tp.List[ast.expr] = []
        if isinstance(n, (ast.For, ast.comprehension)):
            its = [n.iter]
            par = parent(n)
            if isinstance(par, (ast.SetComp,)):
                its = []
            if isinstance(par, ast.GeneratorExp):
                up = parent(par)
                if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id in ("sum", "any", "all", "min", "max", "set", "sorted", "frozenset", "len"):
                    its = []
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate", "iter", "zip", "map") and n.args:
            its = list(n.args)
        elif isinstance(n, ast.Starred):
            its = [n.value]
        for e in its:
            if is_set(e, f):
                found = True
                ctx.bad("order", f"{owner(f).qualname}: set", f.loc(n), f"the plan {owner(f).qualname} follows the order of a set, which changes with the hash seed", ast.unparse(e)[:200])
        # module state
        name: tp.Optional[str] = None
        if isinstance(n, ast.Global):
            name = n.names[0]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in Interp.MUTATORS and isinstance(n.func.value, ast.Name):
            name = n.func.value.id
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
            name = n.value.id
        if name is not None and s.visible(name, f) is None and name not in f.locals and isinstance(f.module.resolve(name), ModVar):
            found = True
            ctx.bad("order", f"{owner(f).qualname}: {name}", f.loc(n), f"the plan {owner(f).qualname} modifies the module variable {name}: the next plan depends on it")
        if name is None and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in Interp.MUTATORS:
            pass
    for a, dflt in defaults(f).items():
        if isinstance(dflt, (ast.List, ast.Dict, ast.Set)):
            for n in walk_local(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in Interp.MUTATORS and isinstance(n.func.value, ast.Name) and n.func.value.id == a or isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == a:
                    found = True
                    ctx.bad("order", f"{owner(f).qualname}: {a}", f.loc(n), f"the plan {owner(f).qualname} modifies the default value of {a}: the next plan depends on it")
    if not found:
        ctx.ok("order", f.qualname)


def positive(p: Path, t: Term) -> tp.Optional[bool]:
    """Whether the path assumes `t is None`."""
    for c, b in p.conds:
        if c[0] in ("is", "cmp", "bin") and contains(c, t) and contains(c, NONE):
            return b
    return None


def check_run(ctx: Ctx) -> None:
    xp = ctx.project.cls(XP, "Experiment")
    init, run = xp.find_method("__init__"), xp.find_method("_run_with_error")
    assert init is not None and run is not None
    for p in ctx.paths(init, P(max_depth=1, keep=lambda c: False), xp):
        if p.kind == "raise":
            continue
        sets = [e for e in p.events if e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == "seed"]
        ctx.check("run", bool(sets) and sets[-1].data["value"] == ("param", "seed"), "Experiment.__init__", init.loc(), "the experiment does not keep the seed it is given", path_note(p))
    seed, opt = attr("seed"), attr("_optimizer")
    want = {"numpy.random.seed": "numpy", "random.seed": "random", "torch.manual_seed": "torch"}
    pol = P(max_depth=3, opaque=CONTRACT | {"minimize", "_log_results", "instantiate", "copy", "register_callback", "suggest"}, unroll=(0, 1), keep=lambda c: contains(c, seed) or contains(c, opt))
    n = 0
    for p in ctx.paths(run, pol, xp):
        calls = [e for e in p.events if e.kind == "call"]
        seeded = [(i, e) for i, e in enumerate(calls) if e.data["name"] in want or e.data["name"].endswith((".seed", ".manual_seed"))]
        copies = [i for i, e in enumerate(calls) if short(e) == "copy" and e.data["recv"] == attr("function")]
        builds = [i for i, e in enumerate(calls) if short(e) == "instantiate"]
        none, fresh = positive(p, seed), positive(p, opt)
        if copies or builds:
            n += 1
            ctx.check("run", bool(copies) and min(copies) < min(builds + [10**6]), "Experiment run: copy", run.loc(), "the optimizer is built before the function of the experiment is copied", path_note(p))
            if none is False and fresh is True:
                first = min(copies + builds)
                done = {want[e.data["name"]] for i, e in seeded if i < first and e.data["name"] in want and e.data["args"] and e.data["args"][0] == seed}
                for lib in sorted(set(want.values()) - done):
                    ctx.bad("run", f"Experiment run: {lib}", run.loc(), f"{lib} is not seeded with the seed of the experiment before the function is copied and the optimizer built", path_note(p))
                if len(done) == 3:
                    ctx.ok("run", "Experiment run: seeding")
            elif none is None and fresh is True:
                ctx.bad("run", "Experiment run: seed", run.loc(), "the run does not depend on its seed", path_note(p))
            for i, e in seeded:
                ctx.check("run", i < min(copies + builds), "Experiment run: late", run.loc(e.node), "a generator is seeded again after the function was copied", path_note(p))
                ctx.check("run", none is False and fresh is not False, "Experiment run: resumed", run.loc(e.node), "generators are seeded although the experiment has no seed, or is resumed", path_note(p))
        for i in builds:
            given = dict(calls[i].data["kwargs"]).get("parametrization") or (calls[i].data["args"][0] if calls[i].data["args"] else NONE)
            ok = bool(copies) and contains(given, calls[copies[0]].data["result"])
            ctx.check("run", ok, "Experiment run: parametrization", run.loc(calls[i].node), "the optimizer is not built on the parametrization of the copied function", path_note(p))
    ctx.check("run", n > 0, "Experiment run", run.loc(), "no path of the run copies the function or builds the optimizer")


def check_generator(ctx: Ctx) -> None:
    g = ctx.project.func(XP, "create_seed_generator")
    seed: Term = ("param", g.params[0].arg)
    n = 0
    for p in ctx.paths(g, P(max_depth=2, yield_raises=True, while_unroll=2, unroll=(0, 1, 2)), None):
        if any(b and contains(c, NONE) and any(x[0] == "call" and str(x[1]).endswith(("RandomState", "default_rng", "Random")) for x in subterms(c)) for c, b in p.conds):
            continue  # a generator is never None
        none = positive(p, seed)
        for e in p.events:
            if e.kind != "yield":
                continue
            n += 1
            v = e.data["value"]
            if none is True:
                ctx.check("generator", v == NONE, "create_seed_generator", g.loc(e.node), "an unseeded plan does not give unseeded experiments", path_note(p))
            else:
                own = contains(v, seed)
                glob = any(x[0] == "call" and str(x[1]).startswith(("numpy.random.", "random.")) and not str(x[1]).endswith(("RandomState", "default_rng", "Random")) for x in subterms(v) if isinstance(x, tuple) and len(x) > 1)
                ctx.check("generator", own and not glob, "create_seed_generator", g.loc(e.node), "the seeds are not drawn from a generator seeded by the seed of the plan", path_note(p))
        made = [e for e in p.events if e.kind == "call" and e.data["name"].endswith(("RandomState", "default_rng", ".Random"))]
        ctx.check("generator", len(made) <= 1, "create_seed_generator: once", g.loc(), "the generator of the seeds is created again for each seed: they are all the same", path_note(p))
    ctx.check("generator", n > 0, "create_seed_generator", g.loc(), "create_seed_generator yields nothing")
    for name in ("__iter__",):
        it = ctx.project.method("nevergrad.benchmark.core", "BenchmarkChunk", name)
        makers = [v for v in ("maker",) if local_values(it, v)]
        calls = [c for c in walk_local(it.node) if isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and any(isinstance(x, ast.Subscript) for x in local_values(it, c.func.id)) or isinstance(c.func, ast.Subscript))]
        given = [a for c in calls for a in list(c.args) + [k.value for k in c.keywords]]
        uses = [x for x in walk_local(it.node) if isinstance(x, ast.Attribute) and x.attr == "seed" and isinstance(x.value, ast.Name) and x.value.id == it.params[0].arg]
        ok = bool(calls) and any(not isinstance(a, ast.Constant) for a in given) and len(uses) >= 1
        ctx.check("generator", ok, "BenchmarkChunk.__iter__", it.loc(), "the plans of a chunk are not given its seed")
        del makers
    split = ctx.project.method("nevergrad.benchmark.core", "BenchmarkChunk", "split")
    for c in walk_local(split.node):
        if isinstance(c, ast.Call) and isinstance(ctx.project.resolve_expr(c.func, split.module, split), ClassInfo) and "Chunk" in ast.unparse(c.func):
            given2 = bind(c, ["name", "repetitions", "seed", "cap_index"])
            for k in ("name", "repetitions", "seed", "cap_index"):
                ctx.check("generator", k in given2 and ast.unparse(given2[k]).endswith(k), f"BenchmarkChunk.split: {k}", split.loc(c), f"the parts of a split chunk do not have its {k}: their plans differ")
