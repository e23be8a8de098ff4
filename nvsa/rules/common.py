"""Anchors and helpers shared by the rules."""
from __future__ import annotations

import ast
import typing as tp

from ..interp import Event, Interp, Path, Policy, Term, const, contains, is_const, show, subterms, NONE, TRUE, FALSE
from ..project import AnalysisBroken, ClassInfo, External, FuncInfo, Module, ModVar, Project, walk_local
from ..report import Ctx

OPT = "nevergrad.optimization"
BASE = "nevergrad.optimization.base"
PARAM = "nevergrad.parametrization"
CORE = "nevergrad.parametrization.core"

SELF: Term = ("param", "self")

# public operations and documented extension points: always kept as single events
PARAM_API = frozenset(
    "spawn_child copy freeze mutate sample recombine get_standardized_data set_standardized_data satisfies_constraints can_skip_constraints "
    "get_value_hash register_cheap_constraint add_layer dimension random_state value".split()
)
OPT_API = frozenset(
    "ask tell recommend provide_recommendation minimize suggest register_callback pareto_front dump load enable_pickling "
    "_internal_ask_candidate _internal_ask _internal_tell_candidate _internal_tell_not_asked _internal_tell _internal_provide_recommendation "
    "_num_objectives_set_callback".split()
)
CONTRACT = PARAM_API | OPT_API


class P(Policy):
    opaque = CONTRACT

    def __init__(self, **kw: tp.Any) -> None:
        for k, v in kw.items():
            setattr(self, k, v)


def optimizer(ctx: Ctx) -> ClassInfo:
    return ctx.project.cls(BASE, "Optimizer")


def parameter(ctx: Ctx) -> ClassInfo:
    return ctx.project.cls(CORE, "Parameter")


def short(ev: Event) -> str:
    return ev.data["name"].rsplit(".", 1)[-1]


def attr(name: str, base: Term = SELF) -> Term:
    return ("attr", base, name)


def arg(ev: Event, i: int, name: str) -> tp.Optional[Term]:
    """i-th positional or keyword argument of a call event."""
    for k, v in ev.data["kwargs"]:
        if k == name:
            return v
    if i < len(ev.data["args"]):
        return ev.data["args"][i]
    return None


def is_call(ev: Event, *names: str) -> bool:
    return ev.kind == "call" and short(ev) in names


def method_calls(p: Path, recv: Term, *names: str) -> tp.List[Event]:
    return [e for e in p.events if e.kind == "call" and e.data["recv"] == recv and short(e) in names]


def path_note(p: Path, limit: int = 40) -> str:
    lines = [("exit: %s %s" % (p.kind, show(p.value) if isinstance(p.value, tuple) else ""))[:300]]
    conds = p.conds
    lines += ["  when " + ("" if b else "not ") + show(t)[:160] for t, b in conds[-limit:]]
    return "\n".join(lines)


def attribute_writes(project: Project, names: tp.Set[str], prefix: str = "nevergrad") -> tp.Iterator[tp.Tuple[FuncInfo, ast.AST, str, ast.expr]]:
    """All syntactic modifications of attributes with these names: stores, deletes, augmented, item stores, mutator calls.
    Yields (function, node, attribute, base expression)."""
    mutators = Interp.MUTATORS
    for f in project.functions(prefix):
        for n in walk_local(f.node):
            if isinstance(n, ast.Attribute) and n.attr in names:
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    yield f, n, n.attr, n.value
                    continue
                par = getattr(n, "_nv_parent", None)
                if isinstance(par, ast.Subscript) and par.value is n and isinstance(par.ctx, (ast.Store, ast.Del)):
                    yield f, n, n.attr, n.value
                elif isinstance(par, ast.Attribute) and par.value is n and par.attr in mutators:
                    gp = getattr(par, "_nv_parent", None)
                    if isinstance(gp, ast.Call) and gp.func is par:
                        yield f, n, n.attr, n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and len(n.args) >= 2:
                if isinstance(n.args[1], ast.Constant) and n.args[1].value in names:
                    yield f, n, n.args[1].value, n.args[0]


def callers_closure(project: Project, roots: tp.Iterable[FuncInfo]) -> tp.Set[str]:
    return {f.fullname for f in roots}
