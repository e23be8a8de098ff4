"""Telling points which the algorithm did not ask for."""
from __future__ import annotations

from .common import *
from .p13 import part_attrs, root

TECHNIQUE = "path enumeration of both tell entry points of every optimizer class, on a candidate carrying no information of the algorithm"
EXPLANATION = (
    "For every optimizer class, both tell entry points (delivery of an asked candidate, which may be a suggestion or a constraint-repaired point, and of "
    "a not-asked one) are explored with an unknown candidate: whatever is read from its metadata, its heritage, or looked up by its uid must be known to "
    "be there on that path, metadata which the algorithm later reads from stored points is deposited on every path storing one, the only explicit error is the "
    "dedicated refusal, and no state was changed before it. Composites refuse only when no part accepted the point."
)
DEDICATED = "TellNotAskedNotSupportedError"
# set by the parametrization itself on every candidate
INHERENT = {"lineage"}
ENTRY = ("_internal_tell_not_asked", "_internal_tell_candidate")
RAISES = "TellNotAsked"


def self_rooted(t: tp.Any) -> bool:
    while isinstance(t, tuple) and t:
        if t == SELF:
            return True
        if t[0] in ("attr", "sub", "item", "idx", "key", "val", "method", "enter"):
            t = t[1]
        elif t[0] == "call" and t[2] is not None and str(t[1]).rsplit(".", 1)[-1] in ("get", "setdefault", "values", "items", "keys"):
            t = t[2]
        else:
            return False
    return False


def classes(ctx: Ctx) -> tp.List[ClassInfo]:
    base = optimizer(ctx)
    return [base] + [c for c in base.all_subclasses() if c.module.name.startswith("nevergrad.")]


def events_terms(e: Event) -> tp.Iterator[tp.Any]:
    for k, v in e.data.items():
        if isinstance(v, tuple):
            yield v


def own_keys(cand: Term) -> tp.Tuple[Term, ...]:
    return (("attr", cand, "uid"), ("sub", ("attr", cand, "heritage"), const("lineage")))


def known(p: Path, key: Term, container: Term, upto: int) -> bool:
    """The path knows that the key is in the container."""
    for t, b in p.conds:
        if b and isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "in" and t[2] == key:
            c = t[3]
            if c == container or isinstance(c, tuple) and c[0] == "call" and str(c[1]).endswith("keys") and c[2] == container:
                return True
        # container.get(key) is not None / truthy
        for s in subterms(t):
            if isinstance(s, tuple) and s[:1] == ("call",) and str(s[1]).rsplit(".", 1)[-1] == "get" and s[2] == container and s[3] == (key,):
                if t == ("cmp", "is", s, NONE) and not b or t == ("truth", s) and b or t == s and b:
                    return True
    for e in p.events[:upto]:
        if e.kind == "setitem" and e.data["base"] == container and e.data["idx"] == key:
            return True
        if is_call(e, "add", "append", "setdefault") and e.data["recv"] == container and e.data["args"][:1] == (key,):
            return True
        if is_call(e, "setdefault") and e.data["recv"] == container and e.data["args"][:1] == (key,):
            return True
        if is_call(e, "update") and e.data["recv"] == container:
            return True
        if e.kind == "caught" and any(n in str(e.data.get("handler")) + str(e.data.get("exc")) for n in ("KeyError", "LookupError", "ValueError", "Exception")):
            return True
    return False


def guarded_by_try(node: ast.AST) -> bool:
    cur = node
    par = getattr(cur, "_nv_parent", None)
    while par is not None and not isinstance(par, (ast.FunctionDef, ast.Lambda)):
        if isinstance(par, ast.Try) and cur in par.body and par.handlers:
            return True
        cur, par = par, getattr(par, "_nv_parent", None)
    return False


def store_of(cand: Term, which: str) -> Term:
    return ("attr", cand, which)


def find_reads(ctx: Ctx, cls: ClassInfo) -> tp.Dict[tp.Tuple[str, str], tp.Tuple[FuncInfo, ast.AST]]:
    """(store, key) read without a guard, anywhere in the class (or functions it calls), from something else than the told candidate."""
    out: tp.Dict[tp.Tuple[str, str], tp.Tuple[FuncInfo, ast.AST]] = {}
    todo: tp.List[FuncInfo] = []
    seen: tp.Set[str] = set()
    for c in cls.mro:
        if isinstance(c, ClassInfo) and c.module.name.startswith(OPT) and c is not optimizer(ctx):
            for m in c.methods.values():
                if cls.find_method(m.name) is m:
                    todo.append(m)
    while todo:
        f = todo.pop()
        if f.fullname in seen:
            continue
        seen.add(f.fullname)
        told = f.params[1].arg if f.name in ENTRY and len(f.params) > 1 else None
        for n in walk_local(f.node):
            if isinstance(n, ast.Call):
                t = ctx.project.call_target(n, f, cls)
                if isinstance(t, FuncInfo) and t.module.name.startswith(OPT) and t.cls is None:
                    todo.append(t)
            if not (isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Attribute) and n.value.attr in ("_meta", "heritage")):
                continue
            if isinstance(n.value.value, ast.Name) and n.value.value.id == told:
                continue  # decided by the paths
            key = key_text(n.slice)
            if key in INHERENT or guarded(n, f) or guarded_by_try(n):
                continue
            if isinstance(n.value.value, ast.Name) and any(
                isinstance(w, ast.Subscript) and isinstance(w.ctx, ast.Store) and ast.unparse(w.value) == ast.unparse(n.value) and key_text(w.slice) == key and w.lineno < n.lineno for w in walk_local(f.node)
            ):
                continue  # written just before
            out.setdefault((n.value.attr, key), (f, n))
    return out


def key_text(node: ast.AST) -> str:
    if isinstance(node, ast.Constant):
        return str(node.value)
    return ast.unparse(node)


def guarded(n: ast.Subscript, f: FuncInfo) -> bool:
    cont, key = ast.unparse(n.value), ast.unparse(n.slice)

    def tests(t: ast.AST, positive: bool = True) -> bool:
        for c in ast.walk(t):
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.In, ast.NotIn)):
                if ast.unparse(c.left) == key and ast.unparse(c.comparators[0]) in (cont, cont + ".keys()"):
                    return True
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "get" and ast.unparse(c.func.value) == cont and c.args and ast.unparse(c.args[0]) == key:
                return True
        return False

    cur: ast.AST = n
    par = getattr(cur, "_nv_parent", None)
    while par is not None and par is not f.node:
        if isinstance(par, (ast.If, ast.IfExp, ast.While)) and cur is not par.test and tests(par.test):
            return True
        if isinstance(par, ast.BoolOp) and any(tests(v) for v in par.values if v is not cur):
            return True
        if isinstance(par, ast.comprehension) and any(tests(i) for i in par.ifs):
            return True
        if isinstance(par, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and any(tests(i) for g in par.generators for i in g.ifs):
            return True
        for block in ("body", "orelse"):  # an early exit earlier in the same block
            stmts = getattr(par, block, None)
            if isinstance(stmts, list) and cur in stmts:
                for s in stmts[: stmts.index(cur)]:
                    if isinstance(s, ast.If) and tests(s.test):
                        return True
        cur, par = par, getattr(par, "_nv_parent", None)
    if par is f.node and cur in f.node.body:
        for s in f.node.body[: f.node.body.index(cur)]:
            if isinstance(s, (ast.If, ast.Assert)) and tests(s.test):
                return True
    return False


def stored(p: Path, cand: Term) -> tp.List[tp.Tuple[int, Event]]:
    out = []
    for i, e in enumerate(p.events):
        if is_call(e, "append", "add", "insert", "appendleft", "extend", "setdefault") and e.data["recv"] is not None and self_rooted(e.data["recv"]) and cand in e.data["args"]:
            out.append((i, e))
        elif e.kind in ("setitem", "setattr") and e.data["value"] == cand and self_rooted(e.data["base"]):
            out.append((i, e))
    return out


def has_key(p: Path, cand: Term, which: str, key: str) -> bool:
    cont = store_of(cand, which)
    for t, b in p.conds:
        if b and isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "in" and t[3] == cont and key_term_text(t[2]) == key:
            return True
        if which == "heritage" and b and isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "in" and t[2] == own_keys(cand)[1] and self_rooted(t[3]):
            return True  # descends from a point it created
    return any(e.kind == "setitem" and e.data["base"] == cont and key_term_text(e.data["idx"]) == key or is_call(e, "setdefault", "update") and e.data["recv"] == cont for e in p.events)


def key_term_text(t: tp.Any) -> str:
    if is_const(t):
        return str(t[2])
    if isinstance(t, tuple) and t[0] == "attr":
        return key_term_text(t[1]) + "." + t[2]
    if isinstance(t, tuple) and t[0] == "param":
        return t[1]
    return show(t)


def check(ctx: Ctx) -> None:
    ctx.rule("routed", "a told candidate goes to the algorithm once, as asked exactly when it was handed out by ask and not told yet", 4)
    ctx.rule("own-information", "nothing which only the algorithm's own candidates carry is read from a told candidate unless it is known to be there", 100)
    ctx.rule("stored-information", "what the algorithm reads from the points it keeps is deposited on every told point before it is kept", 3)
    ctx.rule("dedicated-error", "a told point is processed or refused with the dedicated error", 100)
    ctx.rule("refused-first", "a refusal comes before any change of the state of the algorithm", 5)
    ctx.rule("shared-cache", "metadata kept on a point as a cache is keyed by everything of the optimizer it depends on", 1)
    check_routing(ctx)
    check_caches(ctx)
    param_cls = parameter(ctx)
    known_attrs = parameter_attributes(ctx, param_cls)
    done: tp.Set[tp.Tuple[str, ...]] = set()
    for cls in classes(ctx):
        reads = find_reads(ctx, cls)
        for entry in ENTRY:
            f = cls.find_method(entry)
            if f is None:
                raise AnalysisBroken(f"{cls.name} has no {entry}")
            sig = signature(ctx, cls, f) + tuple(sorted(f"{w}:{k}" for w, k in reads))
            if sig in done:
                continue
            done.add(sig)
            explore(ctx, cls, f, reads, known_attrs)


def signature(ctx: Ctx, cls: ClassInfo, f: FuncInfo) -> tp.Tuple[str, ...]:
    """What the exploration depends on: the methods and class attributes reachable through self."""
    seen: tp.Dict[str, FuncInfo] = {}
    out: tp.Set[str] = set()
    todo = [f]
    while todo:
        g = todo.pop()
        if g.fullname in seen:
            continue
        seen[g.fullname] = g
        for n in walk_local(g.node):
            if isinstance(n, ast.Attribute):
                m = cls.find_method(n.attr)
                if m is not None:
                    todo.append(m)
                for c in cls.mro:
                    if isinstance(c, ClassInfo):
                        vals = [ast.unparse(s) for s in c.node.body if isinstance(s, (ast.Assign, ast.AnnAssign)) and n.attr in ast.unparse(s).split("=")[0].replace(":", " ").split()]
                        if vals:
                            out.update(vals)
                            break
    return (f.fullname,) + tuple(sorted(seen)) + tuple(sorted(out))


def parameter_attributes(ctx: Ctx, param_cls: ClassInfo) -> tp.Set[str]:
    out: tp.Set[str] = set()
    for c in [param_cls] + list(param_cls.all_subclasses()) + [x for x in param_cls.mro if isinstance(x, ClassInfo)]:
        out |= set(c.methods) | set(getattr(c, "attrs", {}) or {})
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                out.add(s.target.id)
            elif isinstance(s, ast.Assign):
                out |= {t.id for t in s.targets if isinstance(t, ast.Name)}
        for m in c.methods.values():
            for n in walk_local(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
    return out | {"__class__", "__dict__"}


def explore(ctx: Ctx, cls: ClassInfo, f: FuncInfo, reads: tp.Dict[tp.Tuple[str, str], tp.Tuple[FuncInfo, ast.AST]], known_attrs: tp.Set[str]) -> None:
    if len(f.params) < 3:
        return
    cand: Term = ("param", f.params[1].arg)
    keys = own_keys(cand)
    opaque = (CONTRACT - {"_internal_tell_candidate", "_internal_tell_not_asked", "_internal_tell"}) | {"_warn", "_select_optimizer_cls"}

    parts = part_attrs(ctx, cls)

    class Pol(P):
        unroll = (0, 2) if parts else (0, 1)
        max_paths = 6000
        stable_attrs = frozenset(["_meta", "heritage", "uid", "population", "_population", "_subcandidates"])
        assert_raises = True

        def keep(self, cond: Term) -> bool:
            return contains(cond, cand)

        def inline(self, func: FuncInfo, interp: Interp, state: tp.Any) -> bool:
            lazy = any(isinstance(d, ast.Name) and d.id in ("property", "cached_property") for d in getattr(func.node, "decorator_list", ()))
            return func.name not in opaque and not lazy

        def raises(self, event: Event) -> bool:
            return is_call(event, "tell") and event.data["recv"] is not None and root(event.data["recv"]) in parts

    where = f"{cls.name}.{f.name}"
    try:
        paths = list(ctx.paths(f, Pol(), cls=cls))
    except AnalysisBroken as exc:
        raise AnalysisBroken(f"{where}: {exc}") from exc
    handled: tp.Set[tp.Any] = set()
    for p in paths:
        last: tp.Optional[Event] = None
        for e in p.events:
            if e.kind == "call" and e.data.get("raised"):
                last = e
            elif e.kind == "caught" and last is not None:
                handled.add(id(last.node))
    for p in paths:
        if infeasible(p):
            continue
        tried = [e for e in p.events if e.kind == "call" and e.data.get("raised")]
        if p.kind == "raise" and isinstance(p.value, tuple) and p.value[0] == "exc" and tried and id(tried[-1].node) in handled:
            continue  # the handler there is for this error
        note = path_note(p)
        # nothing only its own candidates carry
        for i, e in enumerate(p.events):
            for t in events_terms(e):
                for s in subterms(t):
                    read(ctx, p, i, e, s, cand, keys, where, known_attrs, note)
            if e.kind == "call" and short(e) in ("pop", "remove", "index", "__getitem__") and e.data["recv"] is not None and len(e.data["args"]) == 1 and e.data["args"][0] in keys + (cand,):
                if self_rooted(e.data["recv"]):
                    ctx.check("own-information", known(p, e.data["args"][0], e.data["recv"], i), where, e.loc, f"looks up {show(e.data['args'][0])} in {show(e.data['recv'])}, where a point which was not asked is missing", note)
            if e.kind == "call" and short(e) in ("pop",) and e.data["recv"] in (store_of(cand, "_meta"), store_of(cand, "heritage")) and len(e.data["args"]) == 1:
                ctx.check("own-information", known(p, e.data["args"][0], e.data["recv"], i), where, e.loc, f"takes {show(e.data['args'][0])} out of the metadata of a point which may not have it", note)
            if e.kind == "delitem" and (e.data["base"] in (store_of(cand, "_meta"), store_of(cand, "heritage")) or e.data["idx"] in keys and self_rooted(e.data["base"])):
                ctx.check("own-information", known(p, e.data["idx"], e.data["base"], i), where, e.loc, f"removes {show(e.data['idx'])} of a point which may not have it", note)
        depths = [depth(e) for e in p.events]
        for j, (t, _) in enumerate(p.conds):
            upto = next((i for i, d in enumerate(depths) if d > j), len(p.events))
            for s in subterms(t):
                read(ctx, p, upto, None, s, cand, keys, where, known_attrs, note)
        ctx.ok("own-information", where)
        again = [e for e in p.events if is_call(e, *ENTRY) and e.data["recv"] == SELF and e.data["args"][:1] == (cand,)]
        ctx.check("dedicated-error", not again or f.name != ENTRY[0], f"{where}:endless", again[0].loc if again else f.loc(), "the two ways of telling call each other without end", note)
        # the points it keeps carry what it reads from them
        for i, e in stored(p, cand):
            for (which, key), (g, n) in reads.items():
                ok = has_key(p, cand, which, key)
                ctx.check("stored-information", ok or p.kind != "return", f"{where}:{key}", e.loc, f"the told point is kept without {which}[{key!r}], which {g.name} reads from the points kept", note)
        # the only error
        if p.kind == "raise":
            value = str(show(p.value)) if p.value is not None else ""
            if isinstance(p.value, tuple) and p.value[0] == "exc":  # the refusal of a part (tell is the only call taken to raise)
                value = DEDICATED
            ctx.check("dedicated-error", DEDICATED in value or not about(p, cand), where, f.loc(), f"raises {value[:80]} for a point which was not asked", note)
            if DEDICATED in value and not asserted(p) and (f.name == ENTRY[0] or p.value[0] != "exc"):
                first = change(p, cand)
                ctx.check("refused-first", first is None, where, first.loc if first else f.loc(), "the state of the algorithm changed before the refusal", note)
        else:
            ctx.ok("dedicated-error", where)


def depth(e: Event) -> int:
    n, c = 0, e.conds
    while c is not None:
        n, c = n + 1, c[0]
    return n


def infeasible(p: Path) -> bool:
    """The path takes a key for missing after writing it."""
    conds = p.conds
    for i, e in enumerate(p.events):
        if e.kind == "setitem":
            base, keys = e.data["base"], [e.data["idx"]]
        elif is_call(e, "update") and e.data["recv"] is not None:
            base, keys = e.data["recv"], [const(k) for k, _ in e.data["kwargs"]] if not isinstance(e.data["kwargs"], dict) else [const(k) for k in e.data["kwargs"]]
        else:
            continue
        for t, b in conds[depth(e):]:
            if not b and isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "in" and t[2] in keys and t[3] == base:
                if not any(x.kind == "delitem" and x.data["base"] == base or is_call(x, "pop", "clear") and x.data["recv"] == base for x in p.events[i:]):
                    return True
    return False


def asserted(p: Path) -> bool:
    return any(e.kind == "assertfail" for e in p.events)


def about(p: Path, cand: Term) -> bool:
    """The error depends on the point (and not on the state of the algorithm only)."""
    if asserted(p):
        e = [x for x in p.events if x.kind == "assertfail"][-1]
        return any(contains(v, store_of(cand, "_meta")) or contains(v, store_of(cand, "heritage")) or contains(v, ("attr", cand, "uid")) for v in e.data.values() if isinstance(v, tuple))
    return not p.conds or any(contains(p.conds[-1][0], x) for x in (store_of(cand, "_meta"), store_of(cand, "heritage"), ("attr", cand, "uid"), ("attr", cand, "parents_uids"), ("attr", cand, "generation")))


def change(p: Path, cand: Term) -> tp.Optional[Event]:
    for e in p.events:
        if e.kind == "setattr" and e.data["base"] == SELF and any(
            b and t == ("cmp", "is", attr(e.data["name"]), NONE) or not b and t in (attr(e.data["name"]), ("truth", attr(e.data["name"]))) for t, b in p.conds
        ):
            continue  # created on first use
        if e.kind in ("setattr", "delattr", "setitem", "delitem", "aug") and self_rooted(e.data.get("base")):
            return e
        if e.kind == "call" and e.data["recv"] is not None and self_rooted(e.data["recv"]) and e.data["recv"] != SELF:
            if short(e) == "tell" and e.data.get("raised"):
                continue
            if short(e) in Interp.MUTATORS | {"tell", "ask", "add_value"} or contains(e.data["recv"], attr("_rng")):
                return e
    return None


def read(ctx: Ctx, p: Path, i: int, e: tp.Optional[Event], s: tp.Any, cand: Term, keys: tp.Tuple[Term, ...], where: str, known_attrs: tp.Set[str], note: str) -> None:
    if not isinstance(s, tuple) or not s:
        return
    loc = e.loc if e is not None else where
    if e is not None and isinstance(e.node, ast.AST) and guarded_by_try(e.node):
        return
    if s[0] == "sub" and s[1] in (store_of(cand, "_meta"), store_of(cand, "heritage")):
        key = s[2]
        if is_const(key) and key[2] in INHERENT:
            return
        ctx.check("own-information", known(p, key, s[1], i), where, loc, f"reads {show(s)}, which a point the algorithm did not create may not have", note)
    elif s[0] == "sub" and s[2] in keys and self_rooted(s[1]):
        ctx.check("own-information", known(p, s[2], s[1], i), where, loc, f"looks up {show(s)}, where a point which was not asked is missing", note)
    elif s[0] == "sub" and s[1] == ("attr", cand, "parents_uids"):
        nonempty = any(b and contains(t, ("attr", cand, "parents_uids")) for t, b in p.conds)
        ctx.check("own-information", nonempty, where, loc, "reads a parent of a point which may not have one", note)
    elif s[0] == "attr" and s[1] == cand and s[2] not in known_attrs:
        has = any(b and "hasattr" in show(t) and contains(t, cand) for t, b in p.conds)
        ctx.check("own-information", has, where, loc, f"reads attribute {s[2]!r}, which parameters do not have", note)


def check_routing(ctx: Ctx) -> None:
    cls = optimizer(ctx)
    f = cls.find_method("tell")
    if f is None:
        raise AnalysisBroken("Optimizer.tell vanished")
    cand: Term = ("param", f.params[1].arg)

    class Pol(P):
        opaque = CONTRACT | {"_warn", "_preprocess_multiobjective", "_update_archive_and_bests", "penalty"}
        unroll = (0,)
        stable_attrs = frozenset(["_asked", "uid"])

        def keep(self, cond: Term) -> bool:
            return contains(cond, attr("_asked"))

        def raises(self, event: Event) -> bool:
            return is_call(event, *ENTRY)

    refused: tp.Dict[tp.Any, bool] = {}
    for p in ctx.paths(f, Pol()):
        sent = [e for e in p.events if is_call(e, *ENTRY)]
        if p.kind != "return" and not sent:
            continue
        note = path_note(p)
        if not sent:
            reference = any("MultiobjectiveReference" in show(t) and b for t, b in p.conds)
            ctx.check("routed", reference, "Optimizer.tell:delivered", f.loc(), "the algorithm does not receive the point", note)
            continue
        ctx.check("routed", len(sent) == 1, "Optimizer.tell:once", sent[-1].loc, "the algorithm receives the point twice", note)
        e = sent[0]
        told = e.data["args"][0]
        ctx.check("routed", told == cand or told == ("attr", cand, "value") or told[:2] == ("attr", cand), "Optimizer.tell:which", e.loc, f"the algorithm receives {show(told)}", note)
        member = [b for t, b in p.conds if isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "in" and t[2] == ("attr", told, "uid") and t[3] == attr("_asked")]
        ctx.check("routed", bool(member) and member[0] == (short(e) == "_internal_tell_candidate"), f"Optimizer.tell:{short(e)}", e.loc, "asked and not-asked points are not told apart by the record of handed out points", note)
        if short(e) == "_internal_tell_candidate" and e.data.get("raised"):
            handler = any(x.kind == "caught" for x in p.events)
            refused[e.loc] = refused.get(e.loc, False) or p.kind == "return" and handler
    for loc, handled in refused.items():
        ctx.check("routed", handled, "Optimizer.tell:asked-refused", loc, "a point which was handed out by ask is refused")


def check_caches(ctx: Ctx) -> None:
    """A point can be told to several optimizers: a value memoised on it must not depend on the optimizer unless its key does."""
    for cls in classes(ctx):
        for f in cls.methods.values():
            for n in walk_local(f.node):
                if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript)):
                    continue
                t = n.targets[0]
                if not (isinstance(t.value, ast.Attribute) and t.value.attr == "_meta"):
                    continue
                cont, key = ast.unparse(t.value), ast.unparse(t.slice)
                memo = any(
                    isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.In, ast.NotIn)) and ast.unparse(c.left) == key and ast.unparse(c.comparators[0]) in (cont, cont + ".keys()")
                    or isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "get" and ast.unparse(c.func.value) == cont and c.args and ast.unparse(c.args[0]) == key
                    for c in walk_local(f.node)
                )
                if not memo:
                    continue
                ctx.seen(f)
                of = depends(f, n.value, set())
                by = depends(f, t.slice, set())
                constants = {a for a in by if any(a in {x.id for x in ast.walk(s) if isinstance(x, ast.Name)} for c in cls.mro if isinstance(c, ClassInfo) for s in c.node.body if isinstance(s, (ast.Assign, ast.AnnAssign)))}
                ctx.check("shared-cache", not of or bool(by - constants), f"{cls.name}.{f.name}:{key}", f.loc(n), f"the value kept under {key} on the point depends on self.{', self.'.join(sorted(of))}, its key does not")


def depends(f: FuncInfo, e: ast.AST, seen: tp.Set[str]) -> tp.Set[str]:
    """Attributes of self (but the parametrization and the randomness) an expression is computed from."""
    out: tp.Set[str] = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
            par = getattr(n, "_nv_parent", None)
            if n.attr not in ("parametrization", "_rng", "dimension") and not (isinstance(par, ast.Call) and par.func is n):
                out.add(n.attr)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in seen:
            seen.add(n.id)
            for a in walk_local(f.node):
                if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in a.targets):
                    out |= depends(f, a.value, seen)
                elif isinstance(a, ast.AnnAssign) and isinstance(a.target, ast.Name) and a.target.id == n.id and a.value is not None:
                    out |= depends(f, a.value, seen)
    return out
