"""Standardized data is always read and written against the same reference."""
from __future__ import annotations

import fractions
import random

from .common import *

TECHNIQUE = "path enumeration of every function of the optimizers converting data, with interprocedural resolution of the references; algebraic identity of the two conversions on the terms of the source"
EXPLANATION = (
    "Every conversion to or from the standardized space in the optimizers is enumerated on every path: its reference (or the object it is applied to, when there is none) must resolve, through "
    "locals, attributes and the arguments at all call sites, to the parametrization of an optimizer or to an unmodified child or copy of it; only pure random steps and distances may be relative to "
    "another point. In the parametrization layer the conversion from data is shown to be the inverse of the conversion to data, with everything taken from the reference."
)
PAR = "nevergrad.parametrization."
DRAWS = {"normal", "standard_cauchy", "randn", "standard_normal", "standard_t", "laplace", "logistic", "multivariate_normal"}


def tail(name: tp.Any) -> str:
    return str(name).rsplit(".", 1)[-1]


def conversions(f: FuncInfo) -> tp.List[ast.Call]:
    return [n for n in walk_local(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get_standardized_data", "set_standardized_data")]


class Pol(P):
    opaque = CONTRACT
    unroll = (1,)
    while_unroll = 1
    max_depth = 2
    max_paths = 200000

    def inline(self, func: FuncInfo, interp: Interp, state: tp.Any) -> bool:
        """Small helpers only."""
        if func.name in self.opaque or func.name.startswith("__") or not func.module.name.startswith("nevergrad.optimization"):
            return False
        if isinstance(func.node, ast.Lambda):
            return True
        if not any(isinstance(n, ast.Attribute) and (n.attr == "parametrization" or "standardized" in n.attr) for n in walk_local(func.node)):
            return False
        body = [n for n in func.node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
        return len(body) <= 4 and not any(isinstance(n, (ast.For, ast.While, ast.Try, ast.Yield)) for n in walk_local(func.node))


class Own:
    """Which terms and expressions denote the parametrization of an optimizer."""

    def __init__(self, ctx: Ctx) -> None:
        self.ctx = ctx
        self.busy: tp.Set[tp.Any] = set()
        self.calls: tp.Dict[str, tp.List[tp.Tuple[FuncInfo, ast.Call]]] = {}
        for f in ctx.project.functions("nevergrad."):
            for n in walk_local(f.node):
                if isinstance(n, ast.Call):
                    self.calls.setdefault(tail(ast.unparse(n.func)), []).append((f, n))

    # ---- terms
    def term(self, t: tp.Any, f: FuncInfo, cls: tp.Any) -> bool:
        if not isinstance(t, tuple):
            return False
        if t[:1] == ("attr",):
            if t[2] == "parametrization":
                return True
            return t[1] == SELF and self.attribute(cls, t[2])
        if t[:1] == ("param",):
            return self.param(f, t[1])
        if t[:1] == ("call",) and tail(t[1]) in ("copy", "spawn_child") and not self.given(t):
            return self.term(t[2], f, cls)
        return False

    @staticmethod
    def given(t: tp.Any) -> bool:
        return any(a != NONE for a in t[3]) or any(v != NONE for _, v in t[4])

    def attribute(self, cls: tp.Any, name: str) -> bool:
        if cls is None or (cls.name, name) in self.busy:
            return cls is not None
        self.busy.add((cls.name, name))
        try:
            found = []
            for c in [c for c in cls.mro if isinstance(c, ClassInfo)]:
                for m in c.methods.values():
                    for n in walk_local(m.node):
                        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                                if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and t.value.id == "self":
                                    found.append(self.expr(n.value, m))
            return bool(found) and all(found)
        finally:
            self.busy.discard((cls.name, name))

    def param(self, f: FuncInfo, name: str) -> bool:
        key = (f.qualname, name)
        if key in self.busy:
            return True
        self.busy.add(key)
        try:
            names = [a.arg for a in f.params]
            callee = f.cls.name if f.name == "__init__" and f.cls is not None else f.name
            off = 1 if f.cls is not None and names[:1] == ["self"] else 0
            for g, n in self.calls.get(callee, []):
                got = None
                for k in n.keywords:
                    if k.arg == name:
                        got = k.value
                i = names.index(name) - off if name in names else -1
                if got is None and 0 <= i < len(n.args):
                    got = n.args[i]
                if got is not None and not self.expr(got, g):
                    return False
            return True
        finally:
            self.busy.discard(key)

    # ---- expressions (flow-insensitively)
    def expr(self, e: ast.expr, f: FuncInfo) -> bool:
        if isinstance(e, ast.Constant) and e.value is None:
            return True
        if isinstance(e, ast.Attribute):
            if e.attr == "parametrization":
                return True
            return isinstance(e.value, ast.Name) and e.value.id == "self" and self.attribute(f.cls, e.attr)
        if isinstance(e, ast.IfExp):
            return self.expr(e.body, f) and self.expr(e.orelse, f)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "spawn_child") and not e.args:
            return self.expr(e.func.value, f)
        if isinstance(e, ast.Name):
            defs = [n.value for n in walk_local(f.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name) and t.id == e.id]
            if defs:
                return all(self.expr(d, f) for d in defs)
            if e.id in [a.arg for a in f.params]:
                return self.param(f, e.id)
        return False


def centred(t: tp.Any) -> bool:
    """Combination of random draws only: a step."""
    if not isinstance(t, tuple):
        return False
    if t[:1] == ("call",):
        if tail(t[1]) in DRAWS:
            return True
        return False
    if t[:1] == ("bin",):
        if t[1] in ("+", "-"):
            return centred(t[2]) and centred(t[3])
        if t[1] == "*":
            return centred(t[2]) or centred(t[3])
        return t[1] == "/" and centred(t[2])
    return False


CHANGES = {"mutate", "recombine", "set_standardized_data", "value", "add_layer", "set_mutation", "set_bounds", "load_state"}


def check_optimizers(ctx: Ctx) -> None:
    ctx.rule("own-reference", "data is expressed relative to the parametrization of the optimizer", 25)
    ctx.rule("base-object", "data applied without a reference is applied on an unmodified child of the parametrization, or is a random step", 12)
    own = Own(ctx)
    sites = 0
    for f in ctx.project.functions("nevergrad.optimization"):
        here = conversions(f)
        if not here:
            continue
        sites += len(here)
        for cls in [f.cls]:
            for p in ctx.paths(f, Pol(), cls=cls):
                dirty: tp.List[tp.Any] = []
                asked = {e.data["recv"] for e in p.events if e.kind == "call" and tail(e.data["name"]) in ("ask", "recommend")}
                built = {root(e.data["args"][0]) for e in p.events if e.kind == "call" and e.data["args"] and e.data.get("result") in asked}

                def mine(t: tp.Any) -> bool:
                    return own.term(t, f, cls) or root(t) in built

                for e in p.events:
                    if e.kind == "setattr" and e.data["name"] == "value" or e.kind == "call" and tail(e.data["name"]) in ("mutate", "recombine"):
                        dirty.append(e.data["base"] if e.kind == "setattr" else e.data["recv"])
                    if e.kind != "call" or tail(e.data["name"]) not in ("get_standardized_data", "set_standardized_data"):
                        continue
                    recv, ref = e.data["recv"], arg(e, 9, "reference")
                    name = f"{f.qualname}:{tail(e.data['name'])}"
                    if tail(e.data["name"]) == "get_standardized_data":
                        ok = ref is not None and mine(ref) and ref not in dirty
                        if not ok and distance_only(f, e):
                            ctx.ok("own-reference", name + " (distance)")
                            continue
                        ctx.check("own-reference", ok, name, e.loc, f"the data is read relative to {show(ref)[:80] if ref else 'nothing'}, which is not the parametrization of an optimizer", path_note(p))
                        continue
                    data = arg(e, 0, "data")
                    if ref is not None and ref != NONE and ref != recv:
                        ok = mine(ref) and ref not in dirty
                        dirty.append(recv)
                        ctx.check("own-reference", ok, name, e.loc, f"the data is written relative to {show(ref)[:80]}, which is not the parametrization of an optimizer", path_note(p))
                        continue
                    fresh = mine(recv) and recv not in dirty
                    ctx.check("base-object", fresh or centred(data), name, e.loc, f"data which is not a random step is applied relative to {show(recv)[:80]}, which is not an unmodified child of the parametrization", path_note(p))
                    dirty.append(recv)
    if sites < 30:
        raise AnalysisBroken(f"only {sites} conversions found in the optimizers")


def root(t: tp.Any) -> tp.Any:
    """The object a copy or a child comes from."""
    while isinstance(t, tuple) and t[:1] == ("call",) and tail(t[1]) in ("copy", "spawn_child") and not Own.given(t):
        t = t[2]
    return t


def distance_only(f: FuncInfo, e: tp.Any) -> bool:
    """The data is only used as the argument of a norm (or a sum of squares)."""
    for n in conversions(f):
        if f.loc(n) != e.loc:
            continue
        parent = getattr(n, "_nv_parent", None)
        if isinstance(parent, ast.Call) and tail(ast.unparse(parent.func)) == "norm":
            return True
    return False


# ---------------------------------------------------------------- the two conversions
def evaluate(t: tp.Any, env: tp.Dict[tp.Any, fractions.Fraction], rnd: random.Random) -> fractions.Fraction:
    """Value of an arithmetic term, elementwise, the opaque ones being given arbitrary rationals (polynomial identity testing)."""
    if t in env:
        return env[t]
    if is_const(t) and isinstance(t[2], (int, float)):
        return fractions.Fraction(t[2])
    if t[0] == "bin":
        a, b = evaluate(t[2], env, rnd), evaluate(t[3], env, rnd)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[t[1]]()
    if t[0] == "neg" or t[0] == "un" and t[1] == "-":
        return -evaluate(t[-1], env, rnd)
    if t[0] == "call" and tail(t[1]) in ("reshape", "ravel", "flatten", "asarray", "array", "copy"):
        return evaluate(t[2] if t[2] is not None and "numpy" not in str(t[1]) else t[3][0], env, rnd)
    if t[0] == "call" and tail(t[1]) in ("multiply", "add", "subtract", "divide", "true_divide") and len(t[3]) == 2:
        op = {"multiply": "*", "add": "+", "subtract": "-"}.get(tail(t[1]), "/")
        return evaluate(("bin", op, t[3][0], t[3][1]), env, rnd)
    env[t] = fractions.Fraction(rnd.randint(2, 10**6), rnd.randint(2, 10**6))
    return env[t]


def check_layer(ctx: Ctx) -> None:
    ctx.rule("inverse", "writing standardized data and reading it back with the same reference gives the same data, with the origin and the scale of the reference", 1)
    ctx.rule("default-reference", "the reference given is the one used (the object itself when there is none)", 2)
    ctx.rule("per-item", "a container converts each item against the item of the reference with the same key, in one order, on contiguous slices", 2)
    ctx.rule("same-fixed", "a parameter with a fixed reference uses it in both directions", 1)
    data = ctx.project.cls(PAR + "data", "Data")
    core = ctx.project.cls(PAR + "core", "Parameter")
    setter, getter = data.methods.get("_internal_set_standardized_data"), data.methods.get("_internal_get_standardized_data")
    if setter is None or getter is None:
        raise AnalysisBroken("Data lost its conversions")
    pol = P(opaque=CONTRACT, unroll=(0, 1), self_exact=True, stable_attrs=frozenset(["sigma", "parameters", "_value", "value"]), keep=lambda c: True)
    rparam = {f.name: ("param", f.params[2 if f is setter else 1].arg) for f in (setter, getter)}
    ref: Term = ("param", "#reference")

    def same(t: tp.Any, name: str) -> tp.Any:
        if t == rparam[name]:
            return ref
        if isinstance(t, tuple):
            return tuple(same(x, name) for x in t)
        return t

    D: Term = ("param", setter.params[1].arg)
    sets, gets = [], []
    for p in ctx.paths(setter, pol, cls=data):
        if p.kind == "return":
            w = [e for e in p.events if e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == "_value"]
            if len(w) != 1:
                ctx.bad("inverse", "Data._internal_set_standardized_data", setter.loc(), "the data is not written once", path_note(p))
                continue
            sets.append((same(w[0].data["value"], setter.name), p))
    for p in ctx.paths(getter, pol, cls=data):
        if p.kind == "return":
            gets.append((same(p.value, getter.name), p))
    if not sets or not gets:
        raise AnalysisBroken("Data's conversions have no result")
    for s, p in sets:
        for g, q in gets:
            ok = True
            for seed in range(3):
                rnd = random.Random(seed)
                env: tp.Dict[tp.Any, fractions.Fraction] = {}
                try:
                    v = evaluate(s, env, rnd)
                    d = evaluate(D, env, rnd)
                    env[attr("_value")] = v
                    ok &= evaluate(g, env, rnd) == d
                except (ZeroDivisionError, KeyError):
                    ok = False
            own = [t for x in (s, g) for t in subterms(x) if isinstance(t, tuple) and t[:1] == ("attr",) and t[1] == SELF and t != attr("_value")]
            ctx.check("inverse", ok, "Data", setter.loc(), f"set gives {show(s)[:120]} and get gives {show(g)[:120]}: they are not inverse of each other", path_note(p))
            ctx.check("inverse", not own, "Data:own-scale", setter.loc(), f"{', '.join(show(t)[:60] for t in own)} of the object itself is used instead of the reference's", path_note(p))
            ctx.check("inverse", contains(s, ref) and contains(g, ref), "Data:reference", setter.loc(), "the reference is ignored", path_note(p))
    # dispatch
    for name, inner in (("get_standardized_data", "_internal_get_standardized_data"), ("set_standardized_data", "_internal_set_standardized_data")):
        f = core.methods.get(name)
        if f is None:
            raise AnalysisBroken(f"{name} vanished")
        R: Term = ("param", "reference")
        for p in ctx.paths(f, P(opaque=CONTRACT | {inner}, unroll=(0, 1))):
            if p.kind != "return":
                continue
            calls = [e for e in p.events if is_call(e, inner)]
            none = [b for t, b in p.conds if t == ("cmp", "is", R, NONE)]
            want = SELF if True in none else R
            got = arg(calls[0], 0 if "get" in name else 1, "reference") if len(calls) == 1 else None
            ctx.check("default-reference", len(calls) == 1 and got == want and calls[0].data["recv"] == SELF, f"Parameter.{name}", f.loc(), f"the reference used is {show(got) if got else None}, not {show(want)}", path_note(p))
    # containers
    cont = ctx.project.cls(PAR + "container", "Container")
    g, s = cont.methods.get("_internal_get_standardized_data"), cont.methods.get("_internal_set_standardized_data")
    if g is None or s is None:
        raise AnalysisBroken("Container lost its conversions")
    cpol = P(opaque=CONTRACT | {"get_standardized_data", "set_standardized_data"}, unroll=(0, 1, 2), comp_exact=True, stable_attrs=frozenset(["_content", "_sizes"]))
    for f, inner in ((g, "get_standardized_data"), (s, "set_standardized_data")):
        R = ("param", "reference")
        for p in ctx.paths(f, cpol, cls=cont):
            if p.kind != "return":
                continue
            note = path_note(p)
            prev: tp.Any = const(0)
            for e in p.events:
                if not is_call(e, inner) or e.data["recv"] == SELF:
                    continue
                rk, fk = key_of(e.data["recv"], SELF), key_of(arg(e, 9, "reference"), R)
                ctx.check("per-item", rk is not None and rk == fk, f"Container.{f.name}", e.loc, f"{show(e.data['recv'])[:60]} is converted against {show(arg(e, 9, 'reference'))[:60]}", note)
                if f is s:
                    d = e.data["args"][0] if e.data["args"] else None
                    sl = d[2] if isinstance(d, tuple) and d[:1] == ("sub",) else None
                    ok = isinstance(sl, tuple) and sl[:1] == ("slice",) and same_sum(sl[1] if sl[1] != NONE else const(0), prev)
                    ctx.check("per-item", ok, "Container:slices", e.loc, f"the slice {show(sl)[:80] if sl else show(d)[:80]} does not start where the previous one ends", note)
                    prev = sl[2] if ok else prev
        if f is s:
            names = [n for n in walk_local(f.node) if isinstance(n, ast.Attribute) and n.attr == "_sizes" and isinstance(n.ctx, ast.Load)]
            ctx.check("per-item", bool(names), "Container:order", f.loc(), "the order of the items is not the recorded one")
    order_of(ctx, g)
    # fixed references
    tc = ctx.project.cls(PAR + "choice", "TransitionChoice")
    seen = {}
    for name in ("_internal_get_standardized_data", "_internal_set_standardized_data"):
        f = tc.methods.get(name)
        if f is None:
            continue
        R = ("param", f.params[-1].arg)
        for p in ctx.paths(f, P(opaque=CONTRACT | {name, "_layered_get_value", "_layered_set_value"}, unroll=(0, 1), stable_attrs=frozenset(["_ref"])), cls=tc):
            if p.kind != "return":
                continue
            calls = [e for e in p.events if e.kind == "call" and tail(e.data["name"]) == name]
            r = (calls[0].data["args"][-1] if calls and calls[0].data["args"] and not calls[0].data["kwargs"] else dict(calls[0].data["kwargs"]).get(f.params[-1].arg) if calls else None)
            none = [b for t, b in p.conds if isinstance(t, tuple) and t == ("cmp", "is", attr("_ref"), NONE)]
            for k in [none[0]] if none else [True, False]:
                seen.setdefault(k, set()).add(ref if r == R else r)
            want = R if True in none else attr("_ref") if False in none else None
            ctx.check("same-fixed", len(calls) == 1 and (want is None or r == want), f"TransitionChoice.{name}", f.loc(), f"converts against {show(r)[:60] if r else None}", path_note(p))
    for k, v in seen.items():
        ctx.check("same-fixed", len(v) == 1, "TransitionChoice", tc.methods["_internal_get_standardized_data"].loc(), "reading and writing use different references")


def same_sum(a: tp.Any, b: tp.Any) -> bool:
    rnd = random.Random(0)
    env: tp.Dict[tp.Any, fractions.Fraction] = {}
    try:
        return evaluate(a, env, rnd) == evaluate(b, env, rnd)
    except (ZeroDivisionError, KeyError, TypeError):
        return a == b


def key_of(t: tp.Any, base: Term) -> tp.Optional[Term]:
    """Key of an item of a container, base[key] or base._content[key]."""
    if not isinstance(t, tuple):
        return None
    if t[0] == "sub" and t[1] in (base, ("attr", base, "_content")):
        return t[2]
    if t[0] in ("val",) and t[1] == ("attr", base, "_content"):
        return ("key", t[1], t[2])
    if t[0] == "call" and tail(t[1]) == "__getitem__" and t[2] in (base, ("attr", base, "_content")):
        return t[3][0]
    return None


def order_of(ctx: Ctx, g: FuncInfo) -> None:
    """The pieces are assembled in the order of _sizes."""
    ok = False
    for n in walk_local(g.node):
        if isinstance(n, (ast.comprehension, ast.For)) and ast.unparse(n.iter).split("(")[-1].rstrip(")").startswith("self._sizes"):
            ok = True
    ctx.check("per-item", ok, "Container:assembly", g.loc(), "the data of the items is not assembled in the recorded order")


def check(ctx: Ctx) -> None:
    check_layer(ctx)
    check_optimizers(ctx)
