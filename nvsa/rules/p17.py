"""Temporary settings are always put back."""
from __future__ import annotations

from .common import *
from ..flow import Flow

TECHNIQUE = "path enumeration of context managers with failing bodies, flow-sensitive save/restore analysis of optimizer settings, enumeration of process-wide setters"
EXPLANATION = (
    "Every generator-based context manager of the package is explored with a body that succeeds and a body that fails: each attribute and "
    "each environment variable changed before the yield holds its previous value again on every exit. Context managers are only entered "
    "through with. Warning filters are only changed under catch_warnings; the environment, the current directory and numpy's error state "
    "are only changed by the functions meant for it. A forward analysis of every optimizer method shows that its budget and number of "
    "workers are those it started with whenever it returns or raises."
)
ENV = ("os.environ", "os.environb")


def in_with(node: ast.AST, accept: tp.Callable[[ast.expr], bool]) -> bool:
    child, par = node, getattr(node, "_nv_parent", None)
    while par is not None and not isinstance(par, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        if isinstance(par, (ast.With, ast.AsyncWith)) and child in par.body and any(accept(i.context_expr) for i in par.items):
            return True
        child, par = par, getattr(par, "_nv_parent", None)
    return False


def dotted(ctx: Ctx, e: ast.expr, f: FuncInfo) -> str:
    try:
        r = ctx.project.resolve_expr(e, f.module, f)
    except Exception:  # unresolvable expression
        return ""
    return r.dotted if isinstance(r, External) else ""


def library(ctx: Ctx) -> tp.Iterator[FuncInfo]:
    for f in ctx.project.functions("nevergrad"):
        if not f.module.name.rsplit(".", 1)[-1].startswith(("test_", "conftest")):
            yield f


# -- context managers ------------------------------------------------------------------------------------------------
def is_env(t: tp.Any) -> bool:
    return isinstance(t, tuple) and len(t) >= 2 and t[0] in ("ext", "global", "attr", "module") and any(x in ENV for x in map(str, t)) or t in (("ext", "os.environ"),)


class CmPolicy(P):
    yield_raises = True
    comp_exact = True
    unroll = (2,)

    def __init__(self, module: str) -> None:
        self.module = module
        self.opaque = CONTRACT | {"list_data", "filter_from", "instantiate_to_folder"}

    def inline(self, func: FuncInfo, interp: tp.Any, state: tp.Any) -> bool:
        return func.name not in self.opaque and func.module.name == self.module

    def raises(self, event: Event) -> bool:
        if event.kind != "call":
            return False
        n = event.data["name"]
        return n in ("os.environ.pop", "os.environ.__delitem__") and len(event.data["args"]) < 2


def resolve(p: Path, t: tp.Any) -> tp.Any:
    """Reads items of lists built in the function."""
    if isinstance(t, tuple) and len(t) == 3 and t[0] in ("item", "sub") and isinstance(t[1], tuple) and t[1][:1] == ("list",):
        k = t[2] if isinstance(t[2], int) else t[2][2] if is_const(t[2]) or t[2][0] in ("idx", "item") else None
        items = p.heap.get((t[1], "#items"))
        if isinstance(k, int) and isinstance(items, tuple) and -len(items) <= k < len(items):
            return resolve(p, items[k])
    return t


def env_op(e: Event) -> tp.Optional[tp.Tuple[str, tp.Any, tp.Any]]:
    """('set'|'del'|'bulk'|'clear', key, value) when the event changes the environment."""
    if e.kind in ("setitem", "delitem") and is_env(e.data["base"]):
        return ("set", e.data["idx"], e.data["value"]) if e.kind == "setitem" else ("del", e.data["idx"], None)
    if e.kind == "call":
        n, a = e.data["name"], e.data["args"]
        if n in ("os.environ.pop", "os.environ.__delitem__", "os.unsetenv"):
            return ("del", a[0] if a else None, None)
        if n in ("os.environ.__setitem__", "os.putenv"):
            return ("set", a[0], a[1])
        if n == "os.environ.setdefault":
            return ("default", a[0], a[1])
        if n == "os.environ.update":
            return ("bulk", None, a[0] if a else None)
        if n == "os.environ.clear":
            return ("clear", None, None)
    return None


def index_of(key: tp.Any) -> tp.Optional[int]:
    if isinstance(key, tuple) and key[:1] in (("key",), ("item",)) and isinstance(key[2], int):
        return key[2]
    if isinstance(key, tuple) and key[:1] == ("sub",) and is_const(key[2]) and key[2][2] == 0:
        return index_of(key[1])
    return None


def reads_env(t: tp.Any) -> bool:
    return any(s[0] == "call" and s[1].startswith("os.environ.") or s[0] == "call" and s[1] in ("os.getenv",) or s[0] == "sub" and is_env(s[1]) for s in subterms(t))


def env_restored(p: Path, i: int) -> tp.Optional[str]:
    """What is missing on a path, after event i (the yield)."""
    before = [o for o in map(env_op, p.events[:i]) if o is not None]
    if not before:
        return None
    first = next(j for j, e in enumerate(p.events) if env_op(e) is not None)
    if any(e.kind == "call" and e.data["name"] in ("os.environ.get", "os.getenv", "os.environ.copy") for e in p.events[first:i]):
        return "the previous values are read after the change: what they were"
    after = [o for o in map(env_op, p.events[i + 1 :]) if o is not None]
    full = [o for o in after if o[0] == "bulk" and o[2] is not None and any(s[0] == "call" and s[1] in ("os.environ.copy", "builtins.dict") and (s[1] == "os.environ.copy" or any(map(is_env, s[3]))) for s in subterms(o[2]))]
    if full and any(o[0] == "clear" for o in after):
        return None
    keys = {index_of(o[1]) for o in before if o[1] is not None}
    if any(o[0] == "bulk" for o in before):
        keys |= {0, 1}
    if None in keys:
        return "an environment variable that cannot be followed is changed"
    for k in sorted(keys):
        ops = [o for o in after if o[1] is not None and index_of(o[1]) == k]
        # a saved value known to be None on this path means: the variable did not exist
        absent: tp.Optional[bool] = None
        for t, b in p.conds:
            if t[0] == "cmp" and t[1] in ("is", "==") and NONE in t[2:]:
                other = t[2] if t[3] == NONE else t[3]
                if saved_index(p, other) == k:
                    absent = b
            elif t[0] == "cmp" and t[1] == "in" and any(map(is_env, t[2:])) and index_of(t[2]) == k:
                absent = absent if absent is not None else (not b)
        if not ops:
            return f"variable number {k} is not put back"
        last = ops[-1]
        if last[0] == "set":
            if saved_index(p, last[2]) != k:
                return f"variable number {k} receives {show(last[2])} instead of its previous value"
            if absent is not False:
                return f"variable number {k} is set although it may not have existed"
        elif last[0] == "del":
            if absent is not True:
                return f"variable number {k} is removed although it may have existed"
        else:
            return f"variable number {k} ends with {last[0]}"
    return None


def saved_index(p: Path, t: tp.Any) -> tp.Optional[int]:
    """Which saved previous value a term stands for."""
    if not isinstance(t, tuple):
        return None
    if t[0] == "call" and t[1] in ("os.environ.get", "os.getenv") and t[3]:
        if len(t[3]) > 1 and t[3][1] != NONE or any(v != NONE for _, v in t[4]):
            return None  # an absent variable cannot be told from one with the default value
        return index_of(t[3][0])
    if t[0] == "sub" and is_env(t[1]):
        return index_of(t[2])
    if t[0] in ("val", "sub", "item") and len(t) >= 3:
        d = t[1]
        k = t[2] if isinstance(t[2], int) else index_of(t[2])
        items = p.heap.get((d, "#items")) if isinstance(d, tuple) else None
        if isinstance(items, tuple) and items and isinstance(k, int):
            calls = [c for x in items for c in subterms(x) if c[0] == "call" and c[1] in ("os.environ.get", "os.getenv")]
            if all(reads_env(x) for x in items) and all(saved_index(p, c) is not None for c in calls):
                return k
        if t[0] == "sub" and is_const(t[2]) and t[2][2] == 1 and isinstance(d, tuple):
            return saved_index(p, d) if d[0] != "item" else saved_index(p, ("val", d[1], d[2]))
    return None


def check_managers(ctx: Ctx) -> None:
    ctx.rule("manager-attributes", "every attribute changed before the body holds its previous value on every exit of a context manager", 2)
    ctx.rule("manager-environment", "every environment variable changed before the body has its previous value, or is absent again, on every exit", 2)
    ctx.rule("manager-cleanup", "code written after the body of a context manager also runs when the body fails", 3)
    ctx.rule("entered-with", "context managers are only used through with", 5)
    managers = [f for f in library(ctx) if f.is_contextmanager]
    names = {f.name for f in managers}
    if not managers:
        raise AnalysisBroken("no context manager found")
    for f in managers:
        for p in ctx.paths(f, CmPolicy(f.module.name)):
            note = path_note(p)
            ys = [i for i, e in enumerate(p.events) if e.kind == "yield"]
            i = ys[0] if ys else len(p.events)
            if len(ys) > 1:
                ctx.bad("manager-cleanup", f.fullname + ":yields", f.loc(), "the context manager yields twice", note)
                continue
            if not ys:  # it refused before the body: nothing may have been changed
                ops = [o for o in map(env_op, p.events) if o is not None]
                ctx.check("manager-environment", not ops or p.kind == "return", f.fullname + ":refusal", f.loc(), "the environment was changed before the refusal", note)
                ctx.check("manager-attributes", p.kind == "return" or not outer_writes(p, p.events), f.fullname + ":refusal", f.loc(), "attributes were changed before the refusal", note)
                continue
            raised = p.events[i].data.get("raised")
            ctx.check("manager-cleanup", not raised or p.kind == "raise", f.fullname + ":propagates", f.loc(), "an exception of the body is swallowed", note)
            missing = env_restored(p, i)
            ctx.check("manager-environment", missing is None, f.fullname, f.loc(), f"{missing} when the body {'fails' if raised else 'ends'}", note)
            before = outer_writes(p, p.events[:i])
            last: tp.Dict[tp.Tuple[tp.Any, str], tp.Any] = {}
            for e in p.events[i + 1 :]:
                if e.kind == "setattr":
                    last[(resolve(p, e.data["base"]), e.data["name"])] = e.data["value"]
            for e in before:
                base, name = resolve(p, e.data["base"]), e.data["name"]
                v = resolve(p, last.get((base, name)))
                ok = v == ("attr", base, name) or isinstance(v, tuple) and v[:1] == ("call",) and v[1] == "builtins.getattr" and v[3][:2] == (base, const(name))
                ctx.check("manager-attributes", ok, f.fullname + ":" + name, e.loc, f"{show(base)}.{name} is not put back when the body {'fails' if raised else 'ends'}", note)
            # releasing calls of the normal exit also happen on the exceptional one
        good = [p for p in ctx.paths(f, CmPolicy(f.module.name)) if any(e.kind == "yield" for e in p.events)]

        def tail(p: Path) -> tp.Set[str]:
            i = next(i for i, e in enumerate(p.events) if e.kind == "yield")
            return {e.data["name"] for e in p.events[i + 1 :] if e.kind == "call" and e.data["name"].rsplit(".", 1)[-1] in ("cleanup", "close", "rmtree", "remove", "unlink", "chdir", "seterr", "stop", "__exit__", "kill", "terminate", "release")}

        normal = set().union(*[tail(p) for p in good if p.kind == "return"] or [set()])
        for p in good:
            if p.kind == "raise":
                ctx.check("manager-cleanup", normal <= tail(p), f.fullname, f.loc(), f"{sorted(normal - tail(p))} is skipped when the body fails", path_note(p))
    # use
    for f in library(ctx):
        for n in walk_local(f.node):
            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id in names or isinstance(n.func, ast.Attribute) and n.func.attr in names):
                target = ctx.project.call_target(n, f, f.cls)
                t = target[0] if isinstance(target, tuple) else target
                if isinstance(t, FuncInfo) and not t.is_contextmanager:
                    continue
                if not isinstance(t, FuncInfo) and isinstance(n.func, ast.Attribute) and n.func.attr in ("instantiate",):
                    if f.module.name != "nevergrad.parametrization.instantiate":
                        continue
                par = getattr(n, "_nv_parent", None)
                ok = isinstance(par, ast.withitem) or isinstance(par, ast.Return) or isinstance(par, ast.Call) and isinstance(par.func, ast.Attribute) and par.func.attr == "enter_context"
                if not ok and isinstance(par, ast.Assign) and isinstance(par.targets[0], ast.Name):
                    name = par.targets[0].id
                    ok = any(isinstance(w, ast.withitem) and isinstance(w.context_expr, ast.Name) and w.context_expr.id == name for w in walk_local(f.node))
                ctx.check("entered-with", ok, f"{f.fullname}:{ast.unparse(n.func)}", f.loc(n), "a context manager is created but not entered through with: nothing is changed or nothing is put back")


def outer_writes(p: Path, events: tp.Sequence[Event]) -> tp.List[Event]:
    return [e for e in events if e.kind == "setattr" and not (isinstance(e.data["base"], tuple) and e.data["base"][0] in ("new", "list", "dict", "set"))]


# -- process-wide settings -------------------------------------------------------------------------------------------
def check_process(ctx: Ctx) -> None:
    ctx.rule("warning-filters", "warning filters are changed only under catch_warnings", 4)
    ctx.rule("process-settings", "the environment, current directory and numpy error state are changed only by the functions that put them back", 3)

    def catches(f: FuncInfo) -> tp.Callable[[ast.expr], bool]:
        return lambda e: isinstance(e, ast.Call) and dotted(ctx, e.func, f) == "warnings.catch_warnings"

    filters = ("warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings")
    setters = ("os.chdir", "os.putenv", "os.unsetenv", "os.umask", "numpy.seterr", "numpy.set_printoptions", "locale.setlocale", "sys.setrecursionlimit", "os.fchdir")
    allowed = {"nevergrad.common.tools:set_env": "the context manager itself", "nevergrad.parametrization.utils:TemporaryDirectoryCopy.set_clean_copy_environment_variable": "documented permanent setting"}
    for f in library(ctx):
        restored = {dotted(ctx, c.func, f) for t in walk_local(f.node) if isinstance(t, ast.Try) for s in t.finalbody for c in ast.walk(s) if isinstance(c, ast.Call)}
        for n in walk_local(f.node):
            if isinstance(n, ast.Call):
                name = dotted(ctx, n.func, f)
                if name in filters:
                    ok = in_with(n, catches(f))
                    if not ok:
                        sites = [(g, c) for g in library(ctx) for c in walk_local(g.node) if isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and c.func.id == f.name or isinstance(c.func, ast.Attribute) and c.func.attr == f.name)]
                        ok = bool(sites) and all(in_with(c, catches(g)) for g, c in sites)
                    ctx.check("warning-filters", ok, f.fullname, f.loc(n), "a warning filter is changed for the whole process")
                elif name == "warnings.catch_warnings":
                    par = getattr(n, "_nv_parent", None)
                    ctx.check("warning-filters", isinstance(par, (ast.withitem, ast.Return)) or isinstance(par, ast.Call), f.fullname + ":with", f.loc(n), "catch_warnings is not entered through with")
                elif name in setters:
                    ctx.check("process-settings", name in restored, f"{f.fullname}:{name}", f.loc(n), f"{name} changes the whole process and is not undone in a finally clause")
                elif name.startswith("os.environ.") and name.rsplit(".", 1)[-1] in ("update", "pop", "clear", "setdefault", "popitem"):
                    ctx.check("process-settings", f.fullname in allowed or f.is_contextmanager, f.fullname, f.loc(n), "the environment is changed outside the context manager")
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and dotted(ctx, n.value, f) in ENV:
                ctx.check("process-settings", f.fullname in allowed or f.is_contextmanager, f.fullname, f.loc(n), "the environment is changed outside the context manager")
            elif isinstance(n, ast.Attribute) and n.attr == "deterministic" and isinstance(n.ctx, ast.Store):
                # function metadata and constructors are permanent; sampling layers are only switched by the context manager
                perm = f.name == "__init__" or isinstance(n.value, ast.Attribute) and n.value.attr == "function"
                if not perm:
                    sites = [g for g in library(ctx) for c in walk_local(g.node) if isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and c.func.id == f.name or isinstance(c.func, ast.Attribute) and c.func.attr == f.name)]
                    ctx.check("process-settings", f.is_contextmanager or bool(sites) and all(g.is_contextmanager for g in sites), f.fullname + ":deterministic", f.loc(n), "the sampling mode is switched outside the context manager that puts it back")


# -- settings of optimizers ------------------------------------------------------------------------------------------
SETTINGS = ("budget", "num_workers")


class Settings(Flow):
    """State: (changed settings, names holding the original value of a setting, parameters known to be None / not None)."""

    def __init__(self, ctx: Ctx, f: FuncInfo, cache: tp.Dict[tp.Any, tp.Set[str]], stack: tp.Tuple[tp.Any, ...]) -> None:
        self.ctx, self.f, self.cache, self.stack = ctx, f, cache, stack
        args = f.params
        self.me = args[0].arg if args else "self"

    def setting(self, e: ast.AST) -> tp.Optional[str]:
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.me and e.attr in SETTINGS:
            return e.attr
        return None

    def transfer(self, node: ast.AST, state: tp.Any) -> tp.Iterable[tp.Any]:
        changed, saved, facts = state
        changed, saved, facts = set(changed), set(saved), set(facts)
        for n in sorted((x for x in [node, *walk_local(node)] if isinstance(x, ast.Call)), key=lambda x: (x.end_lineno or 0, x.end_col_offset or 0)):
            if isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == self.me:
                if isinstance(n.args[1], ast.Constant) and n.args[1].value in SETTINGS:
                    changed.add(n.args[1].value)
                continue
            for g, given in self.targets(n, facts):
                changed |= summary(self.ctx, g, given, self.cache, self.stack)
        targets: tp.List[tp.Tuple[ast.expr, tp.Optional[ast.expr]]] = []
        if isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Tuple) and isinstance(node.value, ast.Tuple) and len(t.elts) == len(node.value.elts):
                    targets += list(zip(t.elts, node.value.elts))
                else:
                    targets.append((t, node.value))
        elif isinstance(node, ast.AnnAssign) and node.value is not None:
            targets.append((node.target, node.value))
        elif isinstance(node, ast.AugAssign):
            targets.append((node.target, None))
        elif isinstance(node, ast.expr) and isinstance(getattr(node, "ctx", None), ast.Store):
            targets.append((node, None))
        old_saved, old_changed = frozenset(saved), frozenset(changed)
        for t, v in targets:
            s = self.setting(t)
            if s is not None:
                if isinstance(v, ast.Name) and (v.id, s) in old_saved or v is not None and self.setting(v) == s and s not in old_changed:
                    changed.discard(s)
                else:
                    changed.add(s)
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    saved = {(a, b) for a, b in saved if a != x.id}
                    facts = {(a, b) for a, b in facts if a != x.id}
            if isinstance(t, ast.Name) and v is not None:
                sv = self.setting(v)
                if sv is not None and sv not in old_changed:
                    saved.add((t.id, sv))
                elif isinstance(v, ast.Name):
                    saved |= {(t.id, b) for a, b in old_saved if a == v.id}
        return ((frozenset(changed), frozenset(saved), frozenset(facts)),)

    def branch(self, test: ast.expr, state: tp.Any, taken: bool) -> tp.Iterable[tp.Any]:
        changed, saved, facts = state
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and taken or isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or) and not taken:
            out: tp.Set[tp.Any] = {state}
            for v in test.values:
                out = {s2 for s in out for s2 in self.branch(v, s, taken)}
            return out
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.branch(test.operand, state, not taken)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)) and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            none = isinstance(test.ops[0], ast.Is) == taken
            if (test.left.id, not none) in facts:
                return ()
            return ((changed, saved, facts | {(test.left.id, none)}),)
        return (state,)

    def targets(self, n: ast.Call, facts: tp.Set[tp.Any]) -> tp.List[tp.Tuple[FuncInfo, tp.FrozenSet[tp.Tuple[str, bool]]]]:
        if not isinstance(n.func, ast.Attribute):
            return []
        name, v = n.func.attr, n.func.value
        found: tp.List[tp.Tuple[FuncInfo, tp.Sequence[ast.expr]]] = []
        cls = self.f.cls
        if isinstance(v, ast.Name) and v.id == self.me and cls is not None:
            g = cls.find_method(name)
            found += [(g, n.args)] if g is not None else []
            for sub in cls.all_subclasses():
                if name in sub.methods:
                    found.append((sub.methods[name], n.args))
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and cls is not None:
            g = cls.find_method(name, after=self.f.cls)
            found += [(g, n.args)] if g is not None else []
        elif n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == self.me:
            c = self.ctx.project.resolve_expr(v, self.f.module, self.f)
            if isinstance(c, ClassInfo):
                g = c.find_method(name)
                found += [(g, n.args[1:])] if g is not None else []
        out = []
        for g, args in found:
            given: tp.Set[tp.Tuple[str, bool]] = set()
            params = [a.arg for a in g.params][1:]
            bound: tp.Dict[str, ast.expr] = dict(zip(params, args))
            bound.update({k.arg: k.value for k in n.keywords if k.arg})
            defaults = g.node.args.defaults
            for a, d in list(zip(params[len(params) - len(defaults) :], defaults)) + [(a.arg, d) for a, d in zip(g.node.args.kwonlyargs, g.node.args.kw_defaults) if d is not None]:
                e = bound.get(a, d)
                if isinstance(e, ast.Constant):
                    given.add((a, e.value is None))
                elif isinstance(e, ast.Name):
                    given |= {(a, b) for x, b in facts if x == e.id}
            out.append((g, frozenset(given)))
        return out


def summary(ctx: Ctx, f: FuncInfo, given: tp.FrozenSet[tp.Any], cache: tp.Dict[tp.Any, tp.Set[str]], stack: tp.Tuple[tp.Any, ...] = ()) -> tp.Set[str]:
    """Settings of self that a call may leave changed."""
    key = (f, given)
    if key in cache:
        return cache[key]
    if key in stack or len(stack) > 12:
        return set()
    ex = Settings(ctx, f, cache, stack + (key,)).run(f.node, [(frozenset(), frozenset(), given)])
    cache[key] = set().union(*[s[0] for _, s in ex.returns | ex.raised] or [set()])
    return cache[key]


def check_settings(ctx: Ctx) -> None:
    ctx.rule("settings-restored", "a method of an optimizer leaves the budget and the number of workers as it found them", 40)
    cache: tp.Dict[tp.Any, tp.Set[str]] = {}
    opt = optimizer(ctx)
    for cls in [opt, *opt.all_subclasses()]:
        for f in cls.methods.values():
            if f.is_static or f.is_classmethod or f.name in ("__init__", "__setstate__"):
                continue
            text = {n.attr for n in walk_local(f.node) if isinstance(n, ast.Attribute)}
            if not (text & set(SETTINGS)) and f.name != "_select_optimizer_cls":
                continue
            ctx.seen(f)
            # called without optional arguments, as the framework does
            params = [a.arg for a in f.params][1:]
            d = f.node.args.defaults
            given = frozenset((a, v.value is None) for a, v in zip(params[len(params) - len(d) :], d) if isinstance(v, ast.Constant))
            ex = Settings(ctx, f, cache, ((f, given),)).run(f.node, [(frozenset(), frozenset(), given)])
            bad = sorted({(line, s) for line, st in ex.returns | ex.raised for s in st[0]})
            ctx.check("settings-restored", not bad, f.fullname, f"{f.module.name}:{bad[0][0] if bad else f.node.lineno}", f"leaves self.{bad[0][1] if bad else ''} changed on {len(bad)} exits: {[b[0] for b in bad][:8]}")


def check(ctx: Ctx) -> None:
    check_managers(ctx)
    check_process(ctx)
    check_settings(ctx)
