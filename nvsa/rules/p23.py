"""Errors of user code and of algorithms are never swallowed."""
from __future__ import annotations

from .common import *

TECHNIQUE = "exception-flow query over every handler of the core library, with a transitive may-run-foreign-code analysis of the guarded body; path enumeration of the benchmark runner"
EXPLANATION = (
    "Every exception handler, finally clause, suppress block and __exit__ of the optimization and parametrization layers, of the common tools "
    "and of the benchmark runner is enumerated. A handler on whose paths the exception is neither raised again nor handed over to the waiting "
    "side must only catch a specific expected exception, unless nothing it guards can run an objective, a constraint, a callback or an "
    "algorithm (transitively through the calls that can be resolved). Handed-over exceptions must be raised where they arrive. The benchmark "
    "runner records the class of the very exception raised by the run."
)
SCOPE = ("nevergrad.optimization", "nevergrad.parametrization", "nevergrad.common", "nevergrad.benchmark.xpbase", "nevergrad.benchmark.execution", "nevergrad.benchmark.core")
SPECIFIC = {"ImportError", "ModuleNotFoundError", "StopIteration", "queue.Empty", "_queue.Empty", "OverflowError", "GeneratorExit", "NotImplementedError"}
# operations through which objectives, constraints, callbacks and algorithms run
HOOKS = frozenset(
    "ask tell minimize suggest recommend provide_recommendation submit result satisfies_constraints evaluation_function compute exception "
    "_internal_ask_candidate _internal_ask _internal_tell_candidate _internal_tell_not_asked _internal_tell _internal_provide_recommendation "
    "_optimization_function get_optimization_function run".split()
)
# operations on the data of a parameter, which run no user code
DATA_API = frozenset("spawn_child copy freeze get_standardized_data set_standardized_data get_value_hash as_parameter dimension add_layer".split())


class Foreign:
    """Can these statements run user code or an algorithm?"""

    def __init__(self, ctx: Ctx) -> None:
        self.ctx = ctx
        self.memo: tp.Dict[str, tp.Optional[str]] = {}

    def function(self, f: FuncInfo, depth: int) -> tp.Optional[str]:
        if f.fullname in self.memo:
            return self.memo[f.fullname]
        self.memo[f.fullname] = None
        body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
        out = self.block(body, f, depth, inner=True)
        self.memo[f.fullname] = out
        return out

    def block(self, body: tp.Sequence[ast.AST], f: FuncInfo, depth: int = 8, inner: bool = False) -> tp.Optional[str]:
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for n in walk_local(st):
                if isinstance(n, (ast.Yield, ast.YieldFrom)) and not inner:
                    return "a yield"
                if isinstance(n, ast.Call):
                    out = self.call(n, f, depth)
                    if out is not None:
                        return out
        return None

    def call(self, n: ast.Call, f: FuncInfo, depth: int) -> tp.Optional[str]:
        fn = n.func
        if isinstance(fn, ast.Name):
            nested = self.nested(fn.id, f)
            if nested is not None:
                return self.function(nested, depth - 1) if depth else None
            if self.local(fn.id, f):
                ent = self.ctx.project.expr_type(fn, f, f.cls)
                return None if isinstance(ent, External) and not ent.dotted.startswith("typing") or self.plain(fn.id, f) else f"a call of {fn.id}"
        target = self.ctx.project.call_target(n, f, f.cls)
        if isinstance(fn, ast.Attribute):
            if isinstance(target, External) or self.external(fn.value, f):
                return None
            if fn.attr in HOOKS:
                return f"a call of {ast.unparse(fn)}"
        if isinstance(target, FuncInfo):
            if target.name in DATA_API and target.module.name.startswith(PARAM):
                return None
            todo = [target]
            if target.cls is not None:
                todo += [s.methods[target.name] for s in target.cls.all_subclasses() if target.name in s.methods]
            for t in todo if depth else []:
                out = self.function(t, depth - 1)
                if out is not None:
                    return f"{out} in {t.qualname}"
            return None
        if isinstance(target, ClassInfo):
            if target.module.name.startswith(PARAM):
                return None  # building library objects runs no user code
            init = target.find_method("__init__")
            return self.function(init, depth - 1) if init is not None and depth else None
        if target is None and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == "self" and f.cls is not None:
            vals = self.stored(fn.attr, f.cls)
            if f.cls.find_method(fn.attr) is None and (not all(self.known(v, g) for v, g in vals) if vals else not f.cls.external_bases):
                return f"a call of {ast.unparse(fn)}"
        dispatch = isinstance(fn, ast.Call) and isinstance(fn.func, ast.Name) and fn.func.id == "getattr"
        if isinstance(fn, ast.Subscript) and isinstance(fn.value, ast.Name) and self.plain(fn.value.id, f):
            return None
        if isinstance(fn, (ast.Subscript, ast.Call)) and target is None and not dispatch:
            return f"a call of {ast.unparse(fn)}"
        return None

    def nested(self, name: str, f: FuncInfo) -> tp.Optional[FuncInfo]:
        g: tp.Any = f
        while g is not None:
            for x in self.ctx.project.functions(f.module.name):
                if x.parent is g and x.name == name:
                    return x
            g = g.parent
        return None

    def local(self, name: str, f: FuncInfo) -> bool:
        g: tp.Any = f
        while g is not None:
            if name in g.locals or name in {a.arg for a in g.params}:
                return True
            g = g.parent
        return False

    def plain(self, name: str, f: FuncInfo) -> bool:
        """Only assigned from classes, functions or external objects."""
        vals = [n.value for n in walk_local(f.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and any(isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        vals = [w for v in vals for w in ([v.body, v.orelse] if isinstance(v, ast.IfExp) else [v])]
        return bool(vals) and all(self.known(v, f) for v in vals)

    def known(self, v: ast.expr, f: FuncInfo) -> bool:
        """A class, a function, a third-party object or a method that the repository defines and that runs nothing foreign."""
        if isinstance(v, (ast.Dict, ast.List, ast.Tuple)):
            return all(x is not None and self.known(x, f) for x in (v.values if isinstance(v, ast.Dict) else v.elts))
        ent = self.ctx.project.call_target(v, f, f.cls) if isinstance(v, ast.Call) else self.ctx.project.resolve_expr(v, f.module, f)
        if isinstance(ent, (External, FuncInfo, ClassInfo)):
            return True
        if isinstance(v, ast.Attribute) and v.attr not in HOOKS:
            impl = [c.methods[v.attr] for c in self.ctx.project.classes() if v.attr in c.methods]
            return bool(impl) and all(self.function(m, 3) is None for m in impl)
        return False

    def stored(self, name: str, cls: ClassInfo) -> tp.List[tp.Tuple[ast.expr, FuncInfo]]:
        """Everything but None that is assigned to self.<name> in the class."""
        vals = []
        for c in cls.mro:
            for g in self.ctx.project.functions(c.module.name):
                if g.cls is c:
                    for n in walk_local(g.node):
                        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                                if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self":
                                    vals.append((n.value, g))
        return [(v, g) for v, g in vals if not (isinstance(v, ast.Constant) and v.value is None)]

    def external(self, e: ast.expr, f: FuncInfo) -> bool:
        """Receiver built by a third-party library (attribute assigned from external calls only)."""
        if isinstance(e, ast.Name):
            return isinstance(self.ctx.project.expr_type(e, f, f.cls), External)
        if not (isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" and f.cls is not None):
            return False
        name = e.attr
        prop = f.cls.find_method(name)
        if prop is not None and prop.is_property:
            rets = [n.value for n in walk_local(prop.node) if isinstance(n, ast.Return) and n.value is not None]
            return bool(rets) and all(not (isinstance(r, ast.Attribute) and r.attr == name) and self.external(r, prop) for r in rets)
        vals = self.stored(name, f.cls)
        return bool(vals) and all(isinstance(v, ast.Call) and isinstance(self.ctx.project.call_target(v, g, g.cls), External) for v, g in vals)


def always_raises(body: tp.Sequence[ast.stmt]) -> bool:
    for st in body:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.Assert) and isinstance(st.test, ast.Constant) and not st.test.value:
            return True
        if isinstance(st, ast.If) and st.orelse and always_raises(st.body) and always_raises(st.orelse):
            return True
        if isinstance(st, (ast.With,)) and always_raises(st.body):
            return True
        if isinstance(st, ast.Try) and (always_raises(st.finalbody) or always_raises(st.body) and all(always_raises(h.body) for h in st.handlers)):
            return True
        if any(isinstance(n, (ast.Return, ast.Continue, ast.Break)) for n in ast.walk(st)):
            return False
    return False


def handed_over(h: ast.ExceptHandler) -> tp.List[ast.AST]:
    """Stores of the caught exception object on every path: queue.put(e), self.x = e, future.set_exception(e)."""
    out = []
    for st in h.body:  # unconditional statements only
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Name) and st.value.id == h.name and any(isinstance(t, ast.Attribute) for t in st.targets):
            out.append(st)
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr in ("put", "put_nowait", "set_exception", "send", "send_message", "append"):
            if any(isinstance(a, ast.Name) and a.id == h.name for a in st.value.args):
                out.append(st.value)
    return out


def types_of(ctx: Ctx, e: tp.Optional[ast.expr], f: tp.Optional[FuncInfo], module: Module) -> tp.List[tp.Tuple[str, bool]]:
    """(name, specific) of the caught exceptions."""
    if e is None:
        return [("everything", False)]
    out = []
    for x in e.elts if isinstance(e, ast.Tuple) else [e]:
        ent = ctx.project.resolve_expr(x, module, f)
        if isinstance(ent, ClassInfo):
            out.append((ent.name, not ent.all_subclasses() and ent.name not in ("NevergradError", "NevergradRuntimeError")))
        else:
            name = ent.dotted if isinstance(ent, External) else ast.unparse(x)
            name = name[9:] if name.startswith("builtins.") else name
            out.append((name, name in SPECIFIC))
    return out


def narrowed(h: ast.ExceptHandler, word: str = "") -> bool:
    """Raises unless a condition which makes the exception an expected one holds."""
    for st in h.body:
        if isinstance(st, ast.Assert) and not isinstance(st.test, ast.Constant) and word in ast.unparse(st.test):
            return True
        if isinstance(st, ast.If) and word in ast.unparse(st.test) and (always_raises(st.body) or always_raises(st.orelse)):
            return True
    return False


def check_handlers(ctx: Ctx) -> None:
    ctx.rule("handler", "a handler which swallows only catches a specific expected exception, or guards nothing that can run user code or an algorithm", 15)
    ctx.rule("finally", "no finally clause or __exit__ discards an exception in flight", 2)
    ctx.rule("handed-over", "an exception handed over to another side is raised where it arrives", 0)
    foreign = Foreign(ctx)
    raised_attrs = set()
    raising_types = False
    for f in ctx.project.functions("nevergrad"):
        for n in walk_local(f.node):
            if isinstance(n, ast.Raise):
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute):
                        raised_attrs.add(x.attr)
            if isinstance(n, ast.If) and "isinstance" in ast.unparse(n.test) and "Exception" in ast.unparse(n.test) and any(isinstance(x, ast.Raise) for s in n.body for x in ast.walk(s)):
                raising_types = True
    for f in ctx.project.functions(SCOPE):
        if f.module.name.rsplit(".", 1)[-1].startswith("test_") or f.module.name.endswith((".testing", ".conftest")):
            continue
        ctx.functions.add(f.fullname)
        for n in walk_local(f.node):
            if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                for st in n.finalbody:
                    bad = [x for x in walk_local(st) if isinstance(x, ast.Return) or isinstance(x, (ast.Break, ast.Continue)) and not in_loop(x, st)]
                    ctx.check("finally", not bad, f.qualname, f.loc(bad[0] if bad else st), "leaves the finally clause, which discards the exception in flight")
                for h in n.handlers:
                    construct = f"{f.qualname}:{','.join(t for t, _ in types_of(ctx, h.type, f, f.module))}"
                    why = foreign.block(n.body, f)
                    hides = [x for x in ast.walk(h) if isinstance(x, ast.Raise) and isinstance(x.cause, ast.Constant) and x.cause.value is None and x.exc is not None]
                    if why is not None and hides:
                        ctx.bad("handler", construct, f.loc(hides[0]), f"hides the actual exception although it guards {why}")
                    if always_raises(h.body):
                        ctx.ok("handler", construct)
                        continue
                    over = handed_over(h)
                    if over:
                        ctx.ok("handler", construct)
                        for o in over:
                            attr_ = next((t.attr for t in o.targets if isinstance(t, ast.Attribute)), None) if isinstance(o, ast.Assign) else None
                            ok = attr_ in raised_attrs if attr_ is not None else raising_types
                            ctx.check("handed-over", ok, f"{f.qualname}:{attr_ or 'message'}", f.loc(o), "nothing raises the exception that is handed over here")
                        continue
                    loose = [t for t, specific in types_of(ctx, h.type, f, f.module) if not specific]
                    if not set(loose) & {"everything", "Exception", "BaseException"} and narrowed(h, "constraint" if "AssertionError" in loose else ""):
                        loose = []  # sampling may legitimately fail with constraints only
                    if is_benchmark_record(f, h):
                        loose = []  # decided by the runner rule
                    ctx.check("handler", not loose or why is None or in_raising_handler(n), construct, f.loc(h), f"swallows {', '.join(loose)} although it guards {why}")
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for item in n.items:
                    c = item.context_expr
                    if isinstance(c, ast.Call) and ast.unparse(c.func).rsplit(".", 1)[-1] == "suppress":
                        loose = [t for a in c.args for t, specific in types_of(ctx, a, f, f.module) if not specific]
                        why = foreign.block(n.body, f)
                        inside = in_raising_handler(n)
                        ctx.check("handler", not loose or why is None or inside, f"{f.qualname}:suppress", f.loc(n), f"swallows {', '.join(loose)} although it guards {why}")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "exception" and not n.args and not n.keywords:
                ctx.bad("handler", f"{f.qualname}:exception()", f.loc(n), "retrieves the error of a job instead of raising it")
        if f.name == "__exit__":
            rets = [x for x in walk_local(f.node) if isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and not x.value.value)]
            for r in rets:
                fine = isinstance(r.value, ast.Call) and isinstance(r.value.func, ast.Attribute) and r.value.func.attr == "__exit__"
                ctx.check("finally", fine, f.qualname, f.loc(r), "__exit__ may return a true value, which discards the exception in flight")
            if not rets:
                ctx.ok("finally", f.qualname)


def in_loop(x: ast.AST, top: ast.AST) -> bool:
    par = getattr(x, "_nv_parent", None)
    while par is not None:
        if isinstance(par, (ast.For, ast.While)):
            return True
        if par is top:
            return False
        par = getattr(par, "_nv_parent", None)
    return False


def in_raising_handler(n: ast.AST) -> bool:
    """Within a handler that ends by raising: the suppressed error is secondary."""
    par = getattr(n, "_nv_parent", None)
    while par is not None and not isinstance(par, (ast.FunctionDef, ast.Lambda)):
        if isinstance(par, ast.ExceptHandler):
            return always_raises(par.body)
        par = getattr(par, "_nv_parent", None)
    return False


def is_benchmark_record(f: FuncInfo, h: ast.ExceptHandler) -> bool:
    return f.module.name == "nevergrad.benchmark.xpbase" and f.cls is not None and any("error" in ast.unparse(x) for x in h.body)


def check_runner(ctx: Ctx) -> None:
    ctx.rule("runner-records", "the benchmark runner records the class of the exception of the run, announces it, and lets the exceptions meant for the user through", 2)
    ctx.rule("runner-forwards", "an error of the optimization reaches the recorder whatever happens while the partial results are logged", 2)
    cls = ctx.project.cls("nevergrad.benchmark.xpbase", "Experiment")
    run, inner = cls.find_method("run"), cls.find_method("_run_with_error")
    if run is None or inner is None:
        raise AnalysisBroken("Experiment.run vanished")

    class Pol(P):
        opaque = CONTRACT | {"_run_with_error", "get_description", "print_exc", "format_exc"}

        def raises(self, e: Event) -> bool:
            return is_call(e, "_run_with_error")

    for p in ctx.paths(run, Pol()):
        note = path_note(p)
        failed = [e for e in p.events if is_call(e, "_run_with_error") and e.data.get("raised")]
        caught = [e for e in p.events if e.kind == "caught"]
        records = [e for e in p.events if e.kind == "setitem" and e.data["idx"] == const("error")]
        if not failed:
            ctx.check("runner-records", not records or all(is_const(e.data["value"]) for e in records), "Experiment.run:clean", run.loc(), "an error is recorded without one", note)
        elif p.kind == "return":
            ok = bool(records) and bool(caught) and any(contains(records[-1].data["value"], caught[-1].data["exc"]) for _ in [0]) and "__name__" in repr(records[-1].data["value"])
            ctx.check("runner-records", ok, "Experiment.run", run.loc(), "the class of the exception is not recorded", note)
            told = any(is_call(e, "print_exc", "format_exc", "exception", "print_exception") for e in p.events)
            ctx.check("runner-records", told, "Experiment.run:announced", run.loc(), "the exception is not announced", note)
        else:
            ctx.ok("runner-records", "Experiment.run:raised")
    passing = set()
    for n in walk_local(run.node):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if always_raises(h.body):
                    passing |= {t for t, _ in types_of(ctx, h.type, run, run.module)}
    for t in ("ExperimentFunctionCopyError", "UnsupportedExperiment"):
        ctx.check("runner-records", t in passing, f"Experiment.run:{t}", run.loc(), f"{t} does not reach the user")

    class Pol2(P):
        opaque = CONTRACT | {"_log_results", "_initialize_dims_and_optimizer", "_initialize", "copy", "seed", "manual_seed", "minimize"}
        max_paths = 4000

        def raises(self, e: Event) -> bool:
            return is_call(e, "_log_results", "minimize")

        def keep(self, cond: Term) -> bool:
            return False

    for p in ctx.paths(inner, Pol2()):
        note = path_note(p)
        failed = [i for i, e in enumerate(p.events) if is_call(e, "minimize") and e.data.get("raised")]
        if not failed:
            ctx.ok("runner-forwards", "Experiment._run_with_error:clean")
            continue
        v = p.value
        ok = p.kind == "raise" and isinstance(v, tuple) and v[0] == "exc" and str(v[-1]).endswith("minimize")
        by = str(v[-1]).rsplit(".", 1)[-1] if p.kind == "raise" and isinstance(v, tuple) and v[0] == "exc" else p.kind
        ctx.check("runner-forwards", ok, "Experiment._run_with_error" if ok else f"Experiment._run_with_error:{by}", inner.loc(), f"the error of the run is replaced: {p.kind} {show(v) if isinstance(v, tuple) else v}", note)


def check_wrapped(ctx: Ctx) -> None:
    """errors of an algorithm running in a thread: handed over by the thread, raised by ask, reported after the end"""
    from . import p09

    ctx.rule("wrapped-errors", "an error inside an algorithm running in a thread is posted by the thread, raised by the ask which receives it, and raised again by every later use", 8)
    sub = Ctx("P09", ctx.project, ctx.tier)
    p09.declare(sub)
    p09.check_thread(sub)
    seq, bat = ctx.project.cls(p09.RC, "SequentialRecastOptimizer"), ctx.project.cls(p09.RC, "BatchRecastOptimizer")
    for cls, batch in ((seq, False), (bat, True)):
        p09.check_ask(sub, cls, batch)
    ctx.functions |= sub.functions
    ctx.npaths += sub.npaths
    for rule in ("every-exit-reported", "errors-raised", "falls-back"):
        ctx.ok("wrapped-errors", rule, sub.rules[rule]["obligations"] - sub.rules[rule]["violated"])
        for fi in sub.findings.values():
            if fi.rule == rule:
                ctx.bad("wrapped-errors", fi.construct, fi.loc, fi.message, fi.detail)
    rec = ctx.project.cls(p09.RC, "RecastOptimizer")
    for cls in [rec] + rec.all_subclasses():
        m = cls.methods.get("_check_error")
        if m is None or ".test_" in cls.module.name or cls.module.name.rsplit(".", 1)[-1].startswith("test_"):
            continue
        stores = {attr("_messaging_thread")}
        for p in ctx.paths(m, P(opaque=frozenset(["is_alive"]), keep=lambda c: True), cls):
            none = any((t[0] == "cmp" and t[1] == "is" and t[3] == NONE and (t[2] in stores or t[2][0] == "attr" and t[2][2] == "error") and b) or (t[0] == "truth" and (t[1] in stores or t[1][0] == "attr" and t[1][2] == "error") and not b) for t, b in p.conds)
            ctx.check("wrapped-errors", p.kind == "raise" or none, f"{cls.name}._check_error", m.loc(), "an error of the algorithm is not raised", path_note(p))


def check(ctx: Ctx) -> None:
    check_handlers(ctx)
    check_wrapped(ctx)
    check_runner(ctx)
