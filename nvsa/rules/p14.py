"""Bounded parameters never leave their bounds."""
from __future__ import annotations

import re

from .common import *

TECHNIQUE = "path enumeration of the bounding transforms and layers with interval reasoning on the returned terms; dataflow of the bounds from the public constructors to the layers"
EXPLANATION = (
    "Every value returned by the forward side of a bounding transform is shown to end in a projection on its own bounds (or to be an input already checked to be inside), "
    "every path of its backward side which returns has established that its input is inside, the layers pass every value through them in both directions, "
    "the bounds given by the user reach the layers in order, integer rounding is projected back, and nothing inexact is applied on top of a bounded value."
)
TR = "nevergrad.parametrization.transforms"
DL = "nevergrad.parametrization._datalayers"
DATA = "nevergrad.parametrization.data"
LAY = "nevergrad.parametrization._layering"
UT = "nevergrad.parametrization.utils"


def tail(name: tp.Any) -> str:
    return str(name).rsplit(".", 1)[-1]


def lo_hi(ctx: Ctx) -> tp.Tuple[Term, Term]:
    return attr("a_min"), attr("a_max")


def clip_args(t: tp.Any) -> tp.Optional[tp.Tuple[Term, Term, Term]]:
    """(value, lower, upper) of a clipping term."""
    if not isinstance(t, tuple) or t[:1] != ("call",):
        return None
    n, recv, args, kw = tail(t[1]), t[2], list(t[3]), dict(t[4])
    if n == "clip":
        if recv is not None and "numpy" not in str(t[1]):
            args = [recv] + args
        names = ["a", "a_min", "a_max"]
        alias = {"min": "a_min", "max": "a_max"}
        kw = {alias.get(k, k): v for k, v in kw.items()}
        vals = dict(zip(names, args))
        vals.update({k: v for k, v in kw.items() if k in names})
        return (vals.get("a", NONE), vals.get("a_min", NONE), vals.get("a_max", NONE))
    if n in ("minimum", "maximum", "min", "max") and len(args) == 2:
        outer_is_min = n.startswith("min")
        for inner, bound in (args, reversed(args)):
            if isinstance(inner, tuple) and inner[:1] == ("call",) and tail(inner[1]).startswith("max" if outer_is_min else "min") and len(inner[3]) == 2:
                for v, other in (inner[3], tuple(reversed(inner[3]))):
                    lo, hi = (other, bound) if outer_is_min else (bound, other)
                    if lo in (attr("a_min"),) or hi in (attr("a_max"),):
                        return (v, lo, hi)
    return None


def comparisons(t: tp.Any) -> tp.List[tp.Tuple[Term, bool]]:
    """any(...)/all(...) of comparisons -> [(comparison, is_any)]"""
    if isinstance(t, tuple) and t[:1] == ("truth",):
        t = t[1]
    if not isinstance(t, tuple):
        return []
    if t[0] == "call" and tail(t[1]) in ("any", "all"):
        body = t[3][0] if t[3] else t[2]
        out = []
        todo = [body]
        while todo:
            b = todo.pop()
            if isinstance(b, tuple) and b[:1] == ("bin",) and b[1] in ("|", "&"):
                if (b[1] == "|") == (tail(t[1]) == "any"):
                    todo += [b[2], b[3]]
            elif isinstance(b, tuple) and b[:1] == ("call",) and tail(b[1]) in ("logical_or", "logical_and"):
                if (tail(b[1]) == "logical_or") == (tail(t[1]) == "any"):
                    todo += list(b[3])
            elif isinstance(b, tuple) and b[:1] == ("not",):
                inner = b[1]
                if isinstance(inner, tuple) and inner[:1] == ("cmp",):
                    out.append((inner, "not-" + tail(t[1])))
            else:
                out.append((b, tail(t[1])))
        return out
    if t[0] == "cmp":
        return [(t, "any"), (t, "all")]
    return []


def established(p: Path, x: Term, lo: Term, hi: Term, checker: tp.Optional[tp.Callable[[Term], bool]] = None) -> tp.Set[str]:
    """Which of x >= lo, x <= hi the path has established."""
    out: tp.Set[str] = set()
    for t, b in p.conds:
        if checker is not None and b and checker(t):
            return {"lo", "hi"}
        if isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "is" and t[3] == NONE and b:
            if t[2] == lo:
                out.add("lo")
            if t[2] == hi:
                out.add("hi")
        for c, how in comparisons(t):
            if not (isinstance(c, tuple) and c[:1] == ("cmp",)):
                continue
            op, l, r = c[1], c[2], c[3]
            # violated comparisons: x < lo, hi < x
            bad = "lo" if (op == "<" and l == x and r == lo) else "hi" if (op == "<" and l == hi and r == x) else None
            good = "lo" if (op in ("<=", "<") and l == lo and r == x) else "hi" if (op in ("<=", "<") and l == x and r == hi) else None
            if bad and how == "any" and not b or bad and how == "not-all" and b or good and how == "all" and b or good and how == "not-any" and not b:
                out.add(bad or good or "")
    return out


class TPol(P):
    opaque = CONTRACT | {"_check_shape"}
    unroll = (0, 1)


def check_transforms(ctx: Ctx) -> None:
    ctx.rule("forward-inside", "every value returned by the forward side of a bounding transform is inside its bounds, rounding included", 3)
    ctx.rule("backward-rejects", "the backward side of a bounding transform only returns for inputs inside its bounds", 3)
    ctx.rule("bounds-kept", "the bounds of a transform are the ones it was given, in order and not crossed", 4)
    base = ctx.project.cls(TR, "BoundTransform")
    lo, hi = lo_hi(ctx)
    subs = [c for c in base.all_subclasses() if c.module.name.startswith("nevergrad.")]
    if len(subs) < 3:
        raise AnalysisBroken("bounding transforms vanished")
    for cls in subs:
        checkers = {a for a, v in assigned(cls) if isinstance(v, ast.Call) and ast.unparse(v.func).endswith("BoundChecker") and [ast.unparse(x) for x in v.args] == ["self.a_min", "self.a_max"]}

        def passed(t: Term, x: Term) -> bool:
            if isinstance(t, tuple) and t[:1] == ("truth",):
                t = t[1]
            return isinstance(t, tuple) and t[:1] == ("call",) and (tail(t[1]) in checkers and t[2] in (SELF, None) or t[2] in [attr(c) for c in checkers]) and t[3] == (x,)

        fwd, bwd = cls.find_method("forward"), cls.find_method("backward")
        for f, rule in ((fwd, "forward-inside"), (bwd, "backward-rejects")):
            if f is None:
                raise AnalysisBroken(f"{cls.name} lost a direction")
            x: Term = ("param", f.params[1].arg)
            for p in ctx.paths(f, TPol(), cls=cls):
                if p.kind != "return":
                    continue
                note = path_note(p)
                if rule == "forward-inside":
                    ok = inside(p.value, lo, hi) or established(p, p.value, lo, hi, lambda t: passed(t, p.value)) == {"lo", "hi"}
                    ctx.check(rule, ok, f"{cls.name}.{f.name}", f.loc(), f"returns {show(p.value)[:120]}, which is not projected on [a_min, a_max]: it can be outside", note)
                else:
                    ok = established(p, x, lo, hi, lambda t: passed(t, x)) == {"lo", "hi"}
                    ctx.check(rule, ok, f"{cls.name}.{f.name}", f.loc(), "maps back values which were not checked to be inside the bounds", note)
        for m in cls.methods.values():
            for n in walk_local(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in ("a_min", "a_max") and isinstance(n.value, ast.Name) and n.value.id == "self":
                    ctx.bad("bounds-kept", f"{cls.name}.{m.name}:{n.attr}", m.loc(n), f"{n.attr} is replaced")
        init = cls.methods.get("__init__")
        if init is not None:
            names = [a.arg for a in init.params[1:3]]
            for n in walk_local(init.node):
                if isinstance(n, ast.Call) and ast.unparse(n.func) == "super().__init__":
                    got = {**dict(zip(("a_min", "a_max"), [ast.unparse(a) for a in n.args])), **{k.arg: ast.unparse(k.value) for k in n.keywords}}
                    ctx.check("bounds-kept", [got.get("a_min"), got.get("a_max")] == names, f"{cls.name}.__init__", init.loc(n), f"the bounds handed to the base class are {got}, not {names}")
    # the base class
    init = base.methods.get("__init__")
    if init is None:
        raise AnalysisBroken("BoundTransform.__init__ vanished")
    A, B = (("param", a.arg) for a in init.params[1:3])
    for p in ctx.paths(init, P(unroll=(0, 2))):
        if p.kind != "return":
            continue
        note = path_note(p)
        isnone = {t[2]: b for t, b in p.conds if isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "is" and t[3] == NONE}
        for given, name in ((A, "a_min"), (B, "a_max")):
            sets = [e.data["value"] for e in p.events if e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == name]
            v = sets[-1] if sets else NONE
            other = B if given == A else A
            ctx.check("bounds-kept", not deep_contains(p, v, other), f"BoundTransform.__init__:{name}", init.loc(), f"{name} is taken from {show(v)}", note)
            if isnone.get(given) is False:
                ctx.check("bounds-kept", deep_contains(p, v, given), f"BoundTransform.__init__:{name}", init.loc(), f"{name} is lost: {show(v)}", note)
        if isnone.get(A) is False and isnone.get(B) is False:
            ok = any(not b and any(isinstance(c, tuple) and c[:1] == ("cmp",) and c[1] == "<=" for c, how in comparisons(t)) for t, b in p.conds)
            ctx.check("bounds-kept", ok, "BoundTransform.__init__:crossed", init.loc(), "crossed or equal bounds are accepted", note)


def inside(t: tp.Any, lo: Term, hi: Term) -> bool:
    c = clip_args(t)
    if c is not None:
        return c[1] == lo and c[2] == hi
    if isinstance(t, tuple) and t[:1] == ("call",) and tail(t[1]) in ("asarray", "array", "copy", "reshape", "ravel") and (t[3] or t[2] is not None):
        return inside(t[3][0] if t[3] and tail(t[1]) in ("asarray", "array") else t[2], lo, hi)
    return False


def assigned(cls: ClassInfo) -> tp.Iterator[tp.Tuple[str, ast.expr]]:
    for m in cls.methods.values():
        for n in walk_local(m.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        yield t.attr, n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                yield n.target.attr, n.value


def check_checker(ctx: Ctx) -> None:
    ctx.rule("checker", "the bound checker accepts exactly the values which are not below the lower and not above the upper bound", 3)
    cls = ctx.project.cls(UT, "BoundChecker")
    init, f = cls.methods.get("__init__"), cls.methods.get("__call__")
    if init is None or f is None:
        raise AnalysisBroken("BoundChecker changed shape")
    L, U = (("param", a.arg) for a in init.params[1:3])
    X: Term = ("param", f.params[1].arg)
    n = 0
    for q in ctx.paths(init, P()):
        for p in ctx.paths(f, P(unroll=(0, 1, 2), opaque=CONTRACT), state=q.state):
            if p.kind != "return":
                continue
            n += 1
            est = established(p, X, L, U)
            violated = [c for t, b in p.conds if b for c, how in comparisons(t) if how == "any" and isinstance(c, tuple) and c[:1] == ("cmp",) and c[1] == "<" and (c[2:] == (X, L) or c[2:] == (U, X))]
            note = path_note(p)
            if p.value == TRUE:
                ctx.check("checker", est == {"lo", "hi"}, "BoundChecker.__call__:accepts", f.loc(), f"accepts values without having compared them to both bounds ({sorted(est)})", note)
            elif p.value == FALSE:
                ctx.check("checker", bool(violated), "BoundChecker.__call__:rejects", f.loc(), "rejects values which are inside the bounds", note)
            else:
                comps = [(c, how) for c, how in comparisons(p.value)] if isinstance(p.value, tuple) else []
                ctx.check("checker", bool(comps), "BoundChecker.__call__:value", f.loc(), f"the verdict is {show(p.value)[:100]}", note)
    if not n:
        raise AnalysisBroken("no path of BoundChecker returns")


def linear(t: tp.Any, v: Term, at: int) -> tp.Optional[tp.Dict[tp.Any, float]]:
    """Linear form over opaque symbols, the term v being replaced by a number."""
    if t == v:
        return {1: float(at)}
    if is_const(t) and isinstance(t[2], (int, float)) and not isinstance(t[2], bool):
        return {1: float(t[2])}
    if isinstance(t, tuple) and t[:1] == ("bin",):
        a, b = linear(t[2], v, at), linear(t[3], v, at)
        if a is None or b is None:
            return None
        if t[1] in ("+", "-"):
            s = 1 if t[1] == "+" else -1
            out = dict(a)
            for k, x in b.items():
                out[k] = out.get(k, 0.0) + s * x
            return {k: x for k, x in out.items() if x}
        if t[1] == "*":
            for c, o in ((a, b), (b, a)):
                if set(c) <= {1}:
                    return {k: x * c.get(1, 0.0) for k, x in o.items() if x * c.get(1, 0.0)}
        return None
    return {t: 1.0}


def check_layers(ctx: Ctx) -> None:
    ctx.rule("through-transform", "a bound layer passes every value through its transform, both when read and when set", 2)
    ctx.rule("one-method", "every documented bounding method is exactly one bounding transform built with the bounds of the layer", 5)
    ctx.rule("layer-bounds", "the layer keeps the bounds it was given, in order, and rejects crossed ones", 2)
    ctx.rule("uniform", "uniform sampling maps [0, 1] onto the bounds, in order", 2)
    bound = ctx.project.cls(DL, "Bound")
    layer = ctx.project.cls(DL, "BoundLayer")
    base = ctx.project.cls(TR, "BoundTransform")
    tattrs = {a for a, v in assigned(bound) if "transform" in a}
    g, s = bound.methods.get("_layered_get_value"), bound.methods.get("_layered_set_value")
    if g is None or s is None or not tattrs:
        raise AnalysisBroken("Bound changed shape")
    deep = {"_layered_get_value", "_layered_set_value", "_call_deeper"}
    pol = P(opaque=CONTRACT | deep)
    T = [attr(a) for a in tattrs]
    for p in ctx.paths(g, pol):
        if p.kind != "return":
            continue
        v = p.value
        ok = isinstance(v, tuple) and v[:1] == ("call",) and tail(v[1]) == "forward" and v[2] in T and len(v[3]) == 1 and is_deep(v[3][0], "_layered_get_value")
        ctx.check("through-transform", ok, "Bound._layered_get_value", g.loc(), f"the value read is {show(v)[:120]}, not the transform of the underlying one", path_note(p))
        for e in p.events:
            if is_call(e, "_layered_set_value") and e.data["args"]:
                ctx.check("through-transform", e.data["args"][0] == v, "Bound._layered_get_value:refresh", e.loc, "the underlying value is replaced by something else than the value read", path_note(p))
    V: Term = ("param", s.params[1].arg)
    for p in ctx.paths(s, pol):
        if p.kind != "return":
            continue
        sets = [e for e in p.events if is_call(e, "_layered_set_value")]
        ok = len(sets) == 1 and (lambda a: isinstance(a, tuple) and a[:1] == ("call",) and tail(a[1]) == "backward" and a[2] in T and a[3] == (V,))(sets[0].data["args"][0] if sets[0].data["args"] else None)
        ctx.check("through-transform", ok, "Bound._layered_set_value", s.loc(), "the value set does not go through the inverse transform, which rejects values outside the bounds", path_note(p))
    # other layers with bounds
    for c in layer.all_subclasses():
        if c is bound or not c.module.name.startswith("nevergrad.") or ".test_" in c.module.name:
            continue
        s2, g2 = c.methods.get("_layered_set_value"), c.methods.get("_layered_get_value")
        for p in ctx.paths(s2, P(opaque=CONTRACT | deep | {"_check", "forward", "backward"}), cls=c) if s2 is not None else []:
            V2: Term = ("param", s2.params[1].arg)
            for k, e in enumerate(p.events):
                if is_call(e, "_layered_set_value") or is_call(e, "_call_deeper"):
                    ok = any(is_call(x, "_check", "backward") and V2 in x.data["args"] for x in p.events[:k])
                    ctx.check("through-transform", ok, f"{c.name}._layered_set_value", e.loc, "a value outside the bounds is accepted", path_note(p))
        for p in ctx.paths(g2, P(opaque=CONTRACT | deep | {"forward"}), cls=c) if g2 is not None else []:
            if p.kind == "return":
                v = p.value
                ok = isinstance(v, tuple) and (v[:2] == ("bin", "%") or v[0] == "call" and tail(v[1]) in ("forward", "clip", "mod", "remainder"))
                ctx.check("through-transform", ok, f"{c.name}._layered_get_value", g2.loc(), f"the value read is {show(v)[:100]}, not wrapped or clipped", path_note(p))
    # methods
    init = bound.methods["__init__"]
    table = method_table(ctx, bound, init)
    for name, (cls, where) in table.items():
        ok = cls is not None and base in [c for c in cls.mro if isinstance(c, ClassInfo)]
        ctx.check("one-method", ok, f"Bound:{name}", init.loc(where), f"method {name!r} is implemented by {cls.name if cls else ast.unparse(where)}, which is not a bounding transform")
    setb = ctx.project.cls(DATA, "Data").methods.get("set_bounds")
    if setb is None:
        raise AnalysisBroken("set_bounds vanished")
    doc = ast.get_docstring(setb.node) or ""
    for name in re.findall(r'^\s*- "(\w+)":', doc, re.M):
        special = any(isinstance(n, ast.Constant) and n.value == name for st in setb.node.body[1:] for n in ast.walk(st))
        ctx.check("one-method", name in table or special, f"set_bounds:{name}", setb.loc(), f"documented method {name!r} does not exist")
    for m in bound.methods.values():
        for n in walk_local(m.node):
            if isinstance(n, ast.Attribute) and n.attr in tattrs and isinstance(n.ctx, ast.Store) and m.name != "__init__":
                ctx.bad("one-method", f"Bound.{m.name}:replaced", m.loc(n), "the transform of the layer is replaced")
    L, U = (("param", a.arg) for a in init.params[1:3])
    for p in ctx.paths(init, P(opaque=CONTRACT | {"set_name"}, unroll=(1,))):
        if p.kind != "return":
            continue
        sets = [e for e in p.events if e.kind == "setattr" and e.data["name"] in tattrs and e.data["base"] == SELF]
        ctx.check("one-method", len(sets) == 1, "Bound.__init__:transform", init.loc(), "the layer has no transform", path_note(p))
        made = [e for e in p.events if e.kind == "call" and sets and e.data.get("result") == sets[0].data["value"]]
        args = made[-1].data["args"] if made else ()
        star = len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == "star"
        ok = star and (contains(args[0], attr("bounds")) or ordered(p, args[0], L, U)) or len(args) == 2 and (ordered_pair(p, args, L, U) or args == (("sub", attr("bounds"), const(0)), ("sub", attr("bounds"), const(1)))) or not made
        if made and not star and len(args) >= 2:
            ok = position(args[0], p, L, U) == 0 and position(args[1], p, L, U) == 1
        ctx.check("one-method", ok, "Bound.__init__:bounds", made[-1].loc if made else init.loc(), f"the transform is built with {', '.join(show(a)[:60] for a in args)}, not with the bounds in order", path_note(p))
    binit = layer.methods["__init__"]
    L, U = (("param", a.arg) for a in binit.params[1:3])
    for p in ctx.paths(binit, P(opaque=CONTRACT, unroll=(0,), comp_exact=True)):
        if p.kind != "return" or impossible(p, L, U):
            continue
        note = path_note(p)
        facts = missing(p, L, U)
        sets = [e for e in p.events if e.kind == "setattr" and e.data["name"] == "bounds" and e.data["base"] == SELF]
        it = items_of(p, sets[0].data["value"]) if len(sets) == 1 else None
        ok = it is not None and len(it) == 2 and all(x == NONE if none else deep_contains(p, x, v) if none is False else deep_contains(p, x, v) or x == NONE for x, v, none in zip(it, (L, U), facts)) and ordered_pair(p, it, L, U)
        ctx.check("layer-bounds", ok, "BoundLayer.__init__:bounds", binit.loc(), f"the layer does not keep (lower, upper): {[show(x)[:40] for x in it or ()]}", note)
        if facts[0] is not True and facts[1] is not True and ok:
            lo, hi = it  # type: ignore
            done = False
            for t, b in p.conds:
                for c, how in comparisons(t):
                    if isinstance(c, tuple) and c[:1] == ("cmp",):
                        bad = c[1] == "<=" and which(p, sets[0].data['value'], L, U, c[2]) == 1 and which(p, sets[0].data['value'], L, U, c[3]) == 0
                        good = c[1] == "<" and which(p, sets[0].data['value'], L, U, c[2]) == 0 and which(p, sets[0].data['value'], L, U, c[3]) == 1
                        done |= bad and (how == "any" and not b or how == "not-all" and b) or good and (how == "all" and b or how == "not-any" and not b)
            ctx.check("layer-bounds", done, "BoundLayer.__init__:crossed", binit.loc(), "crossed or equal bounds are accepted", note)
    for name, want in (("set_normalized_value", "from"), ("get_normalized_value", "to")):
        m = layer.methods.get(name)
        if m is None:
            raise AnalysisBroken(f"BoundLayer.{name} vanished")
        for p in ctx.paths(m, P(opaque=CONTRACT | deep | {"bound_to_array"}, inline_classes=frozenset(["Affine", "Reverted"]), self_exact=True, stable_attrs=frozenset(["bounds", "a", "b", "transform"]))):
            if p.kind != "return":
                continue
            lo, hi = ("sub", attr("bounds"), const(0)), ("sub", attr("bounds"), const(1))
            if want == "from":
                sets = [e for e in p.events if is_call(e, "_layered_set_value")]
                got = strip(sets[0].data["args"][0]) if sets and sets[0].data["args"] else None
                v: Term = ("param", m.params[1].arg)
                ends = (linear(got, v, 0), linear(distribute(got, v), v, 1)) if got is not None else (None, None)
                ok = ends == ({lo: 1.0}, {hi: 1.0})
                ctx.check("uniform", ok, f"BoundLayer.{name}", m.loc(), f"0 and 1 are mapped to {[{show(k) if isinstance(k, tuple) else k: x for k, x in (e or {}).items()} for e in ends]} and not to the bounds", path_note(p))
            else:
                ctx.ok("uniform", f"BoundLayer.{name}")


def missing(p: Path, L: Term, U: Term) -> tp.List[tp.Optional[bool]]:
    """Whether the path knows that each bound is missing."""
    facts = {t[2]: b for t, b in p.conds if isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "is" and t[3] == NONE}
    return [facts.get(x) for x in (L, U)]


def impossible(p: Path, L: Term, U: Term) -> bool:
    """The path supposes that something computed from a bound is None."""
    return any(b and isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "is" and t[3] == NONE and t[2] not in (L, U) and (contains(t[2], L) or contains(t[2], U)) for t, b in p.conds)


def which(p: Path, pair: tp.Any, L: Term, U: Term, x: tp.Any) -> tp.Optional[int]:
    """0 for the lower bound, 1 for the upper bound."""
    l, u = deep_contains(p, x, L), deep_contains(p, x, U)
    if l != u:
        return 0 if l else 1
    return position(x, p, L, U) if isinstance(x, tuple) and x[0] in ("sub", "item") else None


def clipped(t: tp.Any, p: Path) -> bool:
    """Result of a projection on the bounds of the parameter."""
    if not isinstance(t, tuple) or t[:1] != ("call",):
        return False
    n = tail(t[1])
    if n == "forward":
        for e in p.events:
            if e.kind == "call" and tail(e.data["name"]) == "Clipping" and (e.data.get("result") == t[2]):
                lo, hi = arg(e, 0, "a_min"), arg(e, 1, "a_max")
                return position(lo, p, NONE, NONE) == 0 and position(hi, p, NONE, NONE) == 1 and "bounds" in show(lo) and "bounds" in show(hi)
        return False
    c = clip_args(t)
    return c is not None and position(c[1], p, NONE, NONE) == 0 and position(c[2], p, NONE, NONE) == 1


def strip(t: tp.Any) -> tp.Any:
    """Removes conversions of bounds to arrays."""
    if isinstance(t, tuple):
        if t[:1] == ("call",) and tail(t[1]) in ("bound_to_array", "asarray", "array") and t[3]:
            return strip(t[3][0])
        return tuple(strip(x) for x in t)
    return t


def distribute(t: tp.Any, v: Term) -> tp.Any:
    return t


def is_deep(t: tp.Any, name: str) -> bool:
    return isinstance(t, tuple) and t[:1] == ("call",) and (tail(t[1]) == name and "super" in str(t[1]) or tail(t[1]) == "_call_deeper" and t[3] and t[3][0] == const(name) or tail(t[1]) == name)


def position(t: tp.Any, p: Path, L: Term, U: Term) -> tp.Optional[int]:
    if isinstance(t, tuple) and t[0] in ("sub", "item") and isinstance(t[2], (tuple, int)):
        i = t[2][2] if isinstance(t[2], tuple) and is_const(t[2]) else t[2]
        return i if i in (0, 1) else None
    l, u = contains(t, L), contains(t, U)
    return 0 if l and not u else 1 if u and not l else None


def deep_contains(p: Path, t: tp.Any, x: Term, depth: int = 4) -> bool:
    """x occurs in t or in the lists it refers to."""
    if contains(t, x):
        return True
    if depth:
        for s in subterms(t):
            if isinstance(s, tuple) and (s, "#items") in p.heap and any(deep_contains(p, y, x, depth - 1) for y in p.heap[(s, "#items")]):
                return True
    return False


def items_of(p: Path, t: tp.Any) -> tp.Optional[tp.Tuple[tp.Any, ...]]:
    if not isinstance(t, tuple):
        return None
    if t[0] == "star":
        return items_of(p, t[1])
    if t[0] == "tuple":
        return t[1] if len(t) == 2 and isinstance(t[1], tuple) and (not t[1] or isinstance(t[1][0], tuple)) else t[1:]
    if t[0] == "call" and tail(t[1]) in ("tuple", "list") and t[3]:
        return items_of(p, t[3][0])
    if (t, "#items") in p.heap:
        return p.heap[(t, "#items")]
    return None


def ordered(p: Path, t: tp.Any, L: Term, U: Term) -> bool:
    it = items_of(p, t)
    if it is None:
        return contains(t, L) and contains(t, U) and show(t).index(show(L)) < show(t).index(show(U))
    if len(it) == 2:
        return ordered_pair(p, it, L, U)
    return all(isinstance(x, tuple) and (x[0] == "rep") for x in it) or len(it) == 0  # a comprehension over (lower, upper), see layer-order


def ordered_pair(p: Path, it: tp.Sequence[tp.Any], L: Term, U: Term) -> bool:
    a, b = it
    return not deep_contains(p, a, U) and not deep_contains(p, b, L) and (deep_contains(p, a, L) or a == NONE) and (deep_contains(p, b, U) or b == NONE)


def method_table(ctx: Ctx, bound: ClassInfo, init: FuncInfo) -> tp.Dict[str, tp.Tuple[tp.Optional[ClassInfo], ast.AST]]:
    """method name -> class of the transform: entries of the dictionary indexed by the method parameter."""
    holders = set()
    where = [(f, n) for f in bound.methods.values() for n in walk_local(f.node)]
    for f, n in where:
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name) and n.slice.id == "method":
            holders.add(ast.unparse(n.value))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and n.args and ast.unparse(n.args[0]) == "method":
            holders.add(ast.unparse(n.func.value))
    out: tp.Dict[str, tp.Tuple[tp.Optional[ClassInfo], ast.AST]] = {}

    def resolve(v: ast.expr) -> tp.Optional[ClassInfo]:
        if isinstance(v, ast.Call) and ast.unparse(v.func).endswith("partial") and v.args:
            v = v.args[0]
        if isinstance(v, ast.Lambda) and isinstance(v.body, ast.Call):
            v = v.body.func
        t = ctx.project.resolve_expr(v, init.module, init)
        return t if isinstance(t, ClassInfo) else None

    def entries(v: ast.expr) -> None:
        if isinstance(v, ast.Call) and ast.unparse(v.func) == "dict":
            for k in v.keywords:
                if k.arg:
                    out[k.arg] = (resolve(k.value), k.value)
                else:
                    entries(k.value)
            for a in v.args:
                entries(a)
        elif isinstance(v, ast.Dict):
            for k, x in zip(v.keys, v.values):
                if isinstance(k, ast.Constant):
                    out[k.value] = (resolve(x), x)
                elif k is None:
                    entries(x)

    nodes: tp.List[ast.AST] = [n for _, n in where] + list(ast.walk(bound.node)) + [s for s in bound.module.tree.body if isinstance(s, (ast.Assign, ast.AnnAssign))]
    for n in nodes:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if ast.unparse(t) in holders or ast.unparse(t) in {h.split(".")[-1] for h in holders}:
                    entries(n.value)
                elif isinstance(t, ast.Subscript) and ast.unparse(t.value) in holders and isinstance(t.slice, ast.Constant):
                    out[t.slice.value] = (resolve(n.value), n.value)
        elif isinstance(n, ast.AnnAssign) and n.value is not None and ast.unparse(n.target) in holders | {h.split(".")[-1] for h in holders}:
            entries(n.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and ast.unparse(n.func.value) in holders:
            for a in n.args:
                entries(a)
            for k in n.keywords:
                if k.arg:
                    out[k.arg] = (resolve(k.value), k.value)
    if not out:
        raise AnalysisBroken("the table of bounding methods was not found")
    return out


def check_construction(ctx: Ctx) -> None:
    ctx.rule("given-bounds", "bounds given to a constructor or to set_bounds reach a bound layer (or a constraint) on every path", 4)
    ctx.rule("refreshed", "data set in the standardized space is read again through the layers, so that it is brought back inside", 1)
    ctx.rule("integer-inside", "integer rounding of a bounded value is projected back inside", 2)
    ctx.rule("crossover-inside", "a crossover which mixes values in another domain projects the result back", 1)
    ctx.rule("nothing-above", "no inexact operation is applied on top of a bound", 0)
    data = ctx.project.cls(DATA, "Data")
    for cname, fname in (("Data", "__init__"), ("Scalar", "__init__"), ("Log", "__init__"), ("Data", "set_bounds")):
        cls = ctx.project.cls(DATA, cname)
        f = cls.methods.get(fname)
        if f is None:
            raise AnalysisBroken(f"{cname}.{fname} vanished")
        L, U = ("param", "lower"), ("param", "upper")

        class Pol(P):
            opaque = CONTRACT | {"__call__", "set_mutation", "add_layer", "_fix_legacy", "set_bounds", "set_integer_casting"}
            unroll = (0,)
            max_depth = 2
            comp_exact = True

            def inline(self, func: FuncInfo, interp: Interp, state: tp.Any) -> bool:
                return func.name not in self.opaque and func.name != "__init__"

            def keep(self, cond: Term) -> bool:
                return contains(cond, L) or contains(cond, U)

        Pol.max_paths = 8000
        for p in ctx.paths(f, Pol(), cls=cls):
            if p.kind != "return" or impossible(p, L, U):
                continue
            note = path_note(p)
            none = missing(p, L, U)
            given = [v for v, n in zip((L, U), none) if n is not True]
            made = [e for e in p.events if e.kind == "call" and tail(e.data["name"]) in ("Bound", "BoundLayer") and e.data.get("result") is not None]
            direct = [e for e in p.events if is_call(e, "set_bounds") and e.data["recv"] == SELF]
            up = [e for e in p.events if e.kind == "call" and tail(e.data["name"]) == "__init__" and any(contains(dict(e.data["kwargs"]).get(k, NONE), v) for k, v in (("lower", L), ("upper", U)))]
            used = []
            for e in made:
                r = e.data["result"]
                on = [x for x in p.events if x.kind == "call" and (x.data["recv"] == r or x.data["name"] == "__call__" and x.data["recv"] == r) and x.data["args"] and x.data["args"][0] == SELF and (TRUE in x.data["args"][1:] or dict(x.data["kwargs"]).get("inplace") == TRUE)]
                on += [x for x in p.events if is_call(x, "add_layer") and x.data["recv"] == SELF and r in x.data["args"]]
                used += [e] if on else []
            enforced = used + direct + up
            if given:
                msg = "no bound layer is applied to the object" if made else "the bounds are ignored"
                ctx.check("given-bounds", bool(enforced), f"{cname}.{fname}", f.loc(), f"{' and '.join(v[1] for v in given)} given: {msg}", note)
            for e in made + direct + up:
                lo, hi = (arg(e, 0, "lower"), arg(e, 1, "upper")) if e not in up else (dict(e.data["kwargs"]).get("lower", NONE), dict(e.data["kwargs"]).get("upper", NONE))
                ok = all(n is True or deep_contains(p, x, v) for x, v, n in ((lo, L, none[0]), (hi, U, none[1]))) and not deep_contains(p, lo, U) and not deep_contains(p, hi, L)
                ctx.check("given-bounds", ok, f"{cname}.{fname}:order", e.loc, f"lower={show(lo)[:60]} upper={show(hi)[:60]}", note)
            if fname == "set_bounds" and given and any(tail(e.data["name"]) == "BoundLayer" for e in made):
                reg = [e for e in p.events if is_call(e, "register_cheap_constraint")]
                chk = [e for e in p.events if e.kind == "call" and tail(e.data["name"]) == "BoundChecker"]
                ok = any(contains(e.data["args"], c.data.get("result")) for e in reg for c in chk)
                ctx.check("given-bounds", ok, "Data.set_bounds:constraint", f.loc(), "nothing enforces the bounds: neither a transform nor a constraint checking them", note)
                for e in chk:
                    a = e.data["args"]
                    plain = len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == "star" and a[0][1][:1] == ("attr",) and a[0][1][2] == "bounds"
                    lo, hi = arg(e, 0, "lower"), arg(e, 1, "upper")
                    pair = (contains(lo, L) or tail(show(lo)).startswith("bounds") and position(lo, p, L, U) == 0) and (contains(hi, U) or tail(show(hi)).startswith("bounds") and position(hi, p, L, U) == 1) if not plain and lo is not None and hi is not None else False
                    ctx.check("given-bounds", plain or pair, "Data.set_bounds:constraint-bounds", e.loc, f"the constraint checks {show(a)[:80]}", note)
    f = data.methods.get("_internal_set_standardized_data")
    if f is None:
        raise AnalysisBroken("_internal_set_standardized_data vanished")
    stores = [n for n in walk_local(f.node) if isinstance(n, ast.Attribute) and n.attr == "_value" and isinstance(n.ctx, ast.Store)]
    reads = [n for n in walk_local(f.node) if isinstance(n, ast.Attribute) and n.attr in ("value", "_layered_get_value") and isinstance(n.ctx, ast.Load) and ast.unparse(n.value) == "self" and unconditional(n, f)]
    ctx.check("refreshed", not stores or any(r.lineno > max(s.lineno for s in stores) for r in reads), "Data._internal_set_standardized_data", f.loc(), "data set in the standardized space stays outside the bounds")
    # integers
    cls = ctx.project.cls(LAY, "Int")
    g = cls.methods.get("_layered_get_value")
    if g is None:
        raise AnalysisBroken("Int._layered_get_value vanished")
    for p in ctx.paths(g, P(opaque=CONTRACT | {"_layered_get_value", "_to_int", "bounds"}, unroll=(0, 1), stable_attrs=frozenset(["_cache", "bounds", "_layers"]), keep=lambda c: True)):
        if p.kind != "return":
            continue
        note = path_note(p)
        if p.value == attr("_cache"):
            continue
        sides: tp.Dict[str, bool] = {}
        for t, b in p.conds:
            if isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "is" and t[3] == NONE and isinstance(t[2], tuple) and t[2][0] in ("sub", "item"):
                i = position(t[2], p, NONE, NONE)
                if i is not None:
                    sides["lo" if i == 0 else "hi"] = not b
        got = projections(p.value)
        for side in ("lo", "hi"):
            if sides.get(side) is False:
                continue
            ok = side in got and (side not in sides or sides[side])
            ctx.check("integer-inside", ok, f"Int._layered_get_value:{side}", g.loc(), f"the rounded value is not projected on the {'lower' if side == 'lo' else 'upper'} bound: {show(p.value)[:100]}", note)
    # crossover
    cross = ctx.project.cls("nevergrad.parametrization.mutation", "Crossover")
    m = cross.methods.get("_layered_recombine")
    if m is None:
        raise AnalysisBroken("Crossover changed shape")
    for p in ctx.paths(m, P(opaque=CONTRACT | {"_apply_array", "root", "bounds", "forward", "_check_shape"}, unroll=(2,), comp_exact=True, inline_classes=frozenset(), stable_attrs=frozenset(["bounds", "parameters"]))):
        if p.kind != "return":
            continue
        fft = [b for t, b in p.conds if "fft" in show(t)]
        unbounded = {position(t[2], p, NONE, NONE) for t, b in p.conds if isinstance(t, tuple) and t[:1] == ("cmp",) and t[1] == "is" and t[3] == NONE and "bounds" in show(t) and b and isinstance(t[2], tuple) and len(t[2]) == 3}
        if False in fft or {0, 1} <= unbounded:
            ctx.ok("crossover-inside", "Crossover._layered_recombine")
            continue
        stores = [e for e in p.events if e.kind == "setattr" and e.data["name"] in ("value", "_value")]
        ok = bool(stores) and all(clipped(e.data["value"], p) for e in stores)
        ctx.check("crossover-inside", ok, "Crossover._layered_recombine", m.loc(), "values mixed in the Fourier domain are not brought back inside the bounds", path_note(p))
    # bounds expressed below another layer
    for f in ctx.project.functions("nevergrad.parametrization"):
        defs = {}
        for n in walk_local(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    defs[ast.unparse(t)] = n.value
        for n in walk_local(f.node):
            if isinstance(n, ast.Call) and tail(ast.unparse(n.func)) in ("Bound", "BoundLayer"):
                texts = [ast.unparse(a) for a in n.args] + [ast.unparse(k.value) for k in n.keywords]
                src = " ".join(texts + [ast.unparse(v) for t, v in defs.items() if any(re.search(rf"(?<![\w.]){re.escape(t)}(?![\w])", x) for x in texts)])
                ctx.check("nothing-above", ".backward(" not in src, f.qualname if ".backward(" in src else "layers", f.loc(n), "the bounds are enforced below an operation whose rounding can move the value outside")


def unconditional(n: ast.AST, f: FuncInfo) -> bool:
    cur = getattr(n, "_nv_parent", None)
    while cur is not None and cur is not f.node:
        if isinstance(cur, (ast.If, ast.For, ast.While, ast.Try, ast.IfExp, ast.BoolOp, ast.Lambda)):
            return False
        cur = getattr(cur, "_nv_parent", None)
    return True


def projections(t: tp.Any) -> tp.Set[str]:
    """Sides on which the (integer) value was projected, outermost operations first."""
    out: tp.Set[str] = set()
    while isinstance(t, tuple) and t[:1] == ("call",):
        n = tail(t[1])
        if n in ("maximum", "minimum", "max", "min") and len(t[3]) == 2:
            bounds = [x for x in t[3] if is_bound(x, 0 if n.startswith("max") else 1)]
            rest = [x for x in t[3] if x not in bounds]
            if bounds and rest:
                out.add("lo" if n.startswith("max") else "hi")
                t = rest[0]
                continue
            return out
        c = clip_args(t)
        if c is not None:
            if is_bound(c[1], 0):
                out.add("lo")
            if is_bound(c[2], 1):
                out.add("hi")
            t = c[0]
            continue
        if n in ("astype", "copy"):
            t = t[2]
            continue
        return out
    return out


def is_bound(t: tp.Any, i: int) -> bool:
    """Integer conversion of bounds[i], rounded towards the inside."""
    subs = [s for s in subterms(t) if isinstance(s, tuple) and s[0] in ("sub", "item") and "bounds" in show(s[1])]
    idx = {position(s, None, NONE, NONE) for s in subs}  # type: ignore
    if idx != {i}:
        return False
    if "ceil" in show(t):
        return i == 0
    if "floor" in show(t):
        return i == 1
    for s in subterms(t):
        if isinstance(s, tuple) and s[:1] == ("bin",) and s[1] in ("+", "-"):
            form = linear(s, NONE, 0)
            if form is None:
                continue
            c = form.get(1, 0.0)
            if len(form) == 2 and all(abs(x - 1.0) < 1e-12 for k, x in form.items() if k != 1):
                return 0.4999 <= c <= 0.5 if i == 0 else -0.5 <= c <= -0.4999
    return False


def check(ctx: Ctx) -> None:
    check_transforms(ctx)
    check_checker(ctx)
    check_layers(ctx)
    check_construction(ctx)
