"""Optimizers made of optimizers: who is told what."""
from __future__ import annotations

import fractions
import random
import re

from .common import *
from .p20 import evaluate

TECHNIQUE = "path-sensitive abstract interpretation of the delegation methods (ask, tell, enable_pickling) of every optimizer made of optimizers, plus a dataflow check of how they build their parts"
EXPLANATION = (
    "Every optimizer class holding optimizers (found by its annotated or constructed attributes) is enumerated; on every path of its tell methods each part it visits is told the told loss once, "
    "with the told candidate or the stored or converted counterpart, unless a budget, a crossing or a refusal condition of that path justifies the skip; on every path of its ask the returned candidate comes "
    "from a part (or is stored with its counterparts) and is attributed to the part which was asked; parts share the parametrization and pickling is forwarded."
)
OL = "nevergrad.optimization.optimizerlib"
# one-shot samplers used as a source of first points: they never learn
SAMPLERS = {("_DE", "sampler")}


def mentions_optimizer(ann: tp.Optional[ast.AST]) -> bool:
    if ann is None:
        return False
    text = ast.unparse(ann)
    if "Type[" in text or "OptCls" in text:
        return False
    return re.search(r"(?<![\w.])(base\.)?Optimizer\b", text) is not None


def constructs_part(call: ast.AST) -> bool:
    """X(self.parametrization, budget.., num_workers..)"""
    if not isinstance(call, ast.Call) or not call.args:
        return False
    first = call.args[0]
    if not (isinstance(first, ast.Attribute) and first.attr == "parametrization" and isinstance(first.value, ast.Name) and first.value.id == "self" or isinstance(first, ast.Name) and first.id == "parametrization"):
        return False
    rest = list(call.args[1:]) + [k.value for k in call.keywords]
    return any("budget" in ast.unparse(r) or "workers" in ast.unparse(r) for r in rest) or any(k.arg in ("budget", "num_workers") for k in call.keywords)


def part_attrs(ctx: Ctx, cls: ClassInfo) -> tp.Set[str]:
    out: tp.Set[str] = set()
    for c in cls.mro:
        if not isinstance(c, ClassInfo) or not c.module.name.startswith(OPT):
            continue
        if c is optimizer(ctx):
            continue
        for m in c.methods.values():
            if any(isinstance(d, ast.Name) and d.id == "property" for d in m.node.decorator_list) and mentions_optimizer(m.node.returns):
                out.add(m.name)
            for n in walk_local(m.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and n.target.value.id == "self" and mentions_optimizer(n.annotation):
                    out.add(n.target.attr)
                elif isinstance(n, ast.Assign) and constructs_part(n.value):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            out.add(t.attr)
        out -= {a for cn, a in SAMPLERS if cn == c.name}
    return out


def root(t: tp.Any) -> tp.Optional[str]:
    """attribute of self a term was taken from (an item, an index, an iteration element...)"""
    while isinstance(t, tuple) and t:
        if t[0] == "attr":
            if t[1] == SELF:
                return t[2]
            return None
        if t[0] in ("item", "sub", "method"):
            t = t[1]
        elif t[0] == "call" and str(t[1]).rsplit(".", 1)[-1] in ("list", "tuple", "reversed", "iter") and t[3]:
            t = t[3][0]
        else:
            return None
    return None


def part_calls(p: Path, parts: tp.Set[str], *names: str) -> tp.List[Event]:
    out = []
    for e in p.events:
        if e.kind == "call" and short(e) in names and e.data["recv"] is not None:
            if root(e.data["recv"]) in parts or e.data.get("part"):
                out.append(e)
            else:
                r = e.data["recv"]
                # an element of a list built on this path out of the parts (e.g. the only one kept)
                if r[0] in ("sub", "item") and isinstance(r[1], tuple) and r[1][0] == "list" and any(root(x) in parts for x in p.heap.get((r[1], "#items"), ()) if isinstance(x, tuple)):
                    out.append(e)
                elif r[0] == "ite" or r[0] == "phi":
                    out.append(e)
    return out


def has_inf(t: tp.Any) -> bool:
    if is_const(t):
        return t[2] in (float("inf"),) or t[2] == "inf"
    if isinstance(t, tuple) and t[0] == "bin" and t[1] == "+":
        return has_inf(t[2]) or has_inf(t[3])
    if isinstance(t, tuple) and t[0] == "attr" and t[2] == "inf":
        return True
    if isinstance(t, tuple) and t[0] == "call" and t[1] == "builtins.float":
        return any(is_const(a) and str(a[2]).lower() in ("inf", "infinity") for a in t[3])
    return isinstance(t, tuple) and t[0] == "ext" and str(t[1]).endswith((".inf", ".Inf"))


def infeasible(p: Path) -> bool:
    for t, b in p.conds:
        if t[0] == "cmp" and t[1] in ("<", "<="):
            if not b and has_inf(t[3]) and not has_inf(t[2]) or b and has_inf(t[2]) and not has_inf(t[3]):
                return True
    return False


def is_counter(t: tp.Any) -> bool:
    return isinstance(t, tuple) and t[0] == "attr" and t[1] == SELF and t[2] in ("_num_tell", "num_tell")


def skip_reason(p: Path, elem: Term, later: bool) -> tp.Optional[str]:
    """why this part may be skipped on this path"""
    last_known_false = any(t[0] == "cmp" and t[1] == "==" and not b and any(x[0] == "idx" for x in subterms(t)) and any(x[0] == "call" and x[1] == "builtins.len" for x in subterms(t)) for t, b in p.conds)
    last_known_false = last_known_false or any(t[0] == "cmp" and t[1] in ("is", "==") and not b and elem in (t[2], t[3]) and any(x[0] == "sub" and x[2] in (const(-1), ("un", "-", const(1))) for x in t[2:4] if isinstance(x, tuple)) for t, b in p.conds)
    nocross = any(t[0] in ("truth", "attr") and "no_crossing" in show(t) and b for t, b in p.conds)
    if nocross:
        for t, b in p.conds:
            if "optim_index" in show(t) and (t[0] == "cmp" and t[1] == "in" and not b or t[0] == "cmp" and t[1] == "==" and not b or t[0] == "cmp" and t[1] == "is" and b):
                return "crossing"
    for t, b in p.conds:
        if t[0] != "cmp":
            continue
        small, large = (t[2], t[3]) if not b else (t[3], t[2])  # small >= large on this path
        if t[0] == "cmp" and t[1] in ("<", "<=") and is_counter(small) and contains(large, ("attr", elem, "budget")):
            if last_known_false or later:
                return "budget"
    return None


class Pol(P):
    opaque = CONTRACT | frozenset(["optim"])
    unroll = (0, 1, 2)

    def raises(self, event: Event) -> bool:
        return short(event) == "tell"

    def keep(self, cond: Term) -> bool:
        return True


class AskPol(P):
    def inline(self, func: FuncInfo, interp: Interp, state: tp.Any) -> bool:
        return func.name not in self.opaque and func.module.name in (OL, BASE)

    opaque = CONTRACT | frozenset(["optim"])
    unroll = (1, 2)
    max_paths = 4000

    def keep(self, cond: Term) -> bool:
        return True


def converted(t: Term, cand: Term) -> bool:
    """a fresh point carrying the candidate's standardized data"""
    if t[0] != "call":
        return False
    return any(s[0] == "call" and str(s[1]).endswith("set_standardized_data") for s in subterms(t)) and any(s[0] == "call" and str(s[1]).endswith("get_standardized_data") and s[2] == cand for s in subterms(t))


def linear(t: tp.Any, sign: int = 1) -> tp.Optional[tp.Dict[tp.Any, int]]:
    """sums and differences of dimensions of parts, as coefficients (None: something else)"""
    if is_const(t) and (t[2] is None or isinstance(t[2], int)):
        return {1: sign * t[2]} if t[2] else {}
    if isinstance(t, tuple) and t[0] == "bin" and t[1] in ("+", "-"):
        a, b = linear(t[2], sign), linear(t[3], sign if t[1] == "+" else -sign)
        if a is None or b is None:
            return None
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + v
        return {k: v for k, v in out.items() if v}
    if isinstance(t, tuple) and t[0] == "attr" and t[2] == "dimension":
        return {t[1]: sign}
    return None


def check_slices(ctx: Ctx, p: Path, e: Event, a0: Term, elems: tp.List[Term], construct: str, loc: str, note: tp.Any) -> None:
    """part number k gets the variables number d_0 + ... + d_(k-1) to d_0 + ... + d_k"""
    part = e.data["recv"]
    if part not in elems:
        return
    before = elems[: elems.index(part)]
    for s in subterms(a0):
        if s[0] != "call" or not str(s[1]).endswith("set_standardized_data") or not s[3]:
            continue
        x = s[3][0]
        if not (isinstance(x, tuple) and x[0] == "sub" and isinstance(x[2], tuple) and x[2][0] == "slice"):
            continue
        lo, hi = linear(x[2][1]), linear(x[2][2])
        if lo is None or hi is None:
            continue
        ok = lo == {b: 1 for b in before} and hi == {**{b: 1 for b in before}, part: 1}
        if is_const(x[2][2]) and x[2][2][2] is None:
            ok = False
        ctx.check("slices", ok, construct, loc, f"the part {show(part)} is told the variables {show(x[2])} after {len(before)} other part(s)", note)


def position(t: Term) -> tp.Any:
    k = t[2]
    return k[2] if isinstance(k, tuple) and k and k[0] in ("idx", "const") else k


def stored(t: Term, cand: Term) -> tp.Optional[str]:
    """taken from a mapping of self by the candidate's uid (or an element of what was): name of the mapping"""
    for s in subterms(t):
        if s[0] == "call" and str(s[1]).rsplit(".", 1)[-1] in ("pop", "get") and s[2] is not None and s[3] and s[3][0] == ("attr", cand, "uid") and s[2][0] == "attr":
            return s[2][2]
        if s[0] == "sub" and s[2] == ("attr", cand, "uid") and s[1][0] == "attr":
            return s[1][2]
    return None


def check_class(ctx: Ctx, cls: ClassInfo, parts: tp.Set[str]) -> None:
    base_opt = optimizer(ctx)
    name = cls.name
    ask, tell, notasked = (cls.find_method(n) for n in ("_internal_ask_candidate", "_internal_tell_candidate", "_internal_tell_not_asked"))
    defines = {n for n in ("_internal_ask_candidate", "_internal_tell_candidate", "_internal_tell_not_asked", "enable_pickling", "optim") if n in cls.methods}
    fresh = bool(parts - set().union(*[part_attrs(ctx, b) for b in cls.mro[1:] if isinstance(b, ClassInfo) and b.is_subclass_of(base_opt)] or [set()]))
    if not defines and not fresh:
        return
    # ---- ask
    pass_through, mappings = False, set()
    multi = False
    if ask is None or ask.cls is base_opt:
        ctx.bad("ask-from-part", f"{name}._internal_ask_candidate", f"{cls.module.name}:{cls.node.lineno}", "an optimizer made of optimizers does not ask them")
    else:
        ctx.seen(ask)
        from_part = 0
        for p in ctx.paths(ask, AskPol(), cls):
            if p.kind != "return" or infeasible(p):
                continue
            asks = part_calls(p, parts, "ask")
            v = p.value
            note = path_note(p)
            construct = f"{name}._internal_ask_candidate"
            sets = [e for e in p.events if e.kind == "setitem" and e.data["base"][0] == "attr" and e.data["base"][1] == SELF and e.data["idx"] == ("attr", v, "uid")]
            for e in asks:
                r = e.data["result"]
                kept = v == r or any(s.data["value"] == r or isinstance(s.data["value"], tuple) and s.data["value"][0] == "list" and r in p.heap.get((s.data["value"], "#items"), ()) for s in sets)
                ctx.check("ask-from-part", kept, construct, ask.loc(), "a candidate asked to a part is neither returned nor stored with the returned candidate: the part will never be told", note)
                from_part += 1
            if any(v == e.data["result"] for e in asks):
                pass_through = True
                e = next(e for e in asks if v == e.data["result"])
                idx = [s for s in p.events if s.kind == "setitem" and s.data["base"] == ("attr", v, "_meta") and s.data["idx"] == ("const", "str", "optim_index")]
                recv = e.data["recv"]
                for s in idx:
                    multi = True
                    want = s.data["value"]
                    good = recv[0] == "sub" and recv[2] == want or recv[0] == "item" and want[0] == "idx" and want[1] == recv[1] and want[2] == recv[2]
                    if recv[0] in ("sub", "item") and is_const(want):
                        good = good or recv[0] == "item" and want[2] == recv[2] or recv[0] == "sub" and is_const(recv[2]) and recv[2][2] == want[2]
                        good = good or any(t == ("cmp", "==", ("call", "builtins.len", None, (recv[1],), ()), ("const", "int", 1)) and b for t, b in p.conds) and want[2] == 0
                    only = [x.data["value"] for x in p.events if x.kind == "setattr" and x.data["base"] == SELF and x.data["name"] in parts]
                    good = good or bool(only) and only[-1][0] == "list" and p.heap.get((only[-1], "#items"), ())[:1] == (recv,) and is_const(want) and want[2] == 0
                    ctx.check("attribution", good, construct, ask.loc(), f"the candidate is attributed to part {show(want)} but was asked to {show(recv)}", note)
            for s in sets:
                if len(part_calls(p, parts, "ask")) or True:
                    mappings.add(s.data["base"][2])
                    val = s.data["value"]
                    # one counterpart per part, in the same order
                    if isinstance(val, tuple) and val[0] == "list":
                        n_iter = len([e for e in p.events if e.kind == "iter" and any(root(x) in parts for x in subterms(e.data["it"]) if x[0] == "attr") and not any("#zip" in str(x) for x in ())])
                        items = p.heap.get((val, "#items"), ())
                        loops = {e.data["lid"] for e in p.events if e.kind == "iter" and any(x[0] == "attr" and x[1] == SELF and x[2] in parts for x in subterms(e.data["it"]))}
                        first = min(loops) if loops else None
                        count = len([e for e in p.events if e.kind == "iter" and e.data["lid"] == first])
                        appended = [e for e in p.events if is_call(e, "append") and e.data["recv"] == val]
                        if appended:
                            ctx.check("one-per-part", len(appended) == count or count == 0, construct, ask.loc(), f"{len(appended)} counterparts stored for {count} parts visited: the losses go to the wrong parts", note)
            if not asks and multi is False and not sets and v is not None and v[0] != "call":
                pass
        ctx.check("ask-from-part", from_part > 0, f"{name}._internal_ask_candidate:any", ask.loc(), "no path asks a part")
    # ---- tell
    for which, m in (("asked", tell), ("not asked", notasked)):
        if m is None or m.cls is base_opt:
            if which == "asked":
                ctx.bad("told", f"{name}._internal_tell_candidate", f"{cls.module.name}:{cls.node.lineno}", "an optimizer made of optimizers never tells them")
            continue
        if m.name not in cls.methods and not fresh and "optim" not in cls.methods:
            continue
        ctx.seen(m)
        cand, loss = ("param", m.params[1].arg), ("param", m.params[2].arg)
        for p in ctx.paths(m, Pol(), cls):
            note = path_note(p)
            construct = f"{name}.{m.name}"
            if p.kind != "return" or infeasible(p):
                continue
            if any(e.kind == "loopend" and e.data["count"] == 0 and any(x[0] == "attr" and x[1] == SELF and x[2] in parts for x in subterms(e.data["it"])) for e in p.events):
                continue  # there is at least one part
            tells = part_calls(p, parts, "tell")
            other = [e for e in p.events if e.kind == "call" and e.data["recv"] == SELF and short(e) in ("_internal_tell_not_asked", "_internal_tell_candidate")]
            sup = [e for e in p.events if e.kind == "call" and short(e) in ("_internal_tell_not_asked", "_internal_tell_candidate") and e.data["recv"] != SELF]
            done = [e for e in tells if not e.data.get("raised")]
            reasons = []
            elems = []
            for i, e in enumerate(p.events):
                if e.kind == "iter":
                    for x in subterms(e.data["elem"]):
                        if x[0] == "item" and root(x) in parts:
                            elems.append((i, x))
                            break
            for i, el in elems:
                n = len([e for e in tells if e.data["recv"] == el])
                later = any(j > i for j, _ in elems) or any(p.events.index(e) > i for e in tells if e.data["recv"] != el)
                if n == 0:
                    r = skip_reason(p, el, later)
                    reasons.append(r)
                    ctx.check("each-part-told", r is not None, construct, m.loc(), f"the part {show(el)} is not told although neither its budget nor a crossing restriction excludes it", note)
                else:
                    ctx.check("each-part-told", n == 1, construct, m.loc(), f"the part {show(el)} is told {n} times", note)
            opened = [e for e in p.events if e.kind == "iter" and any(x[0] == "attr" and x[1] == SELF and x[2] in parts for x in subterms(e.data["it"]))]
            closed = {e.data["lid"] for e in p.events if e.kind == "loopend"}
            ctx.check("each-part-told", all(e.data["lid"] in closed for e in opened), construct, m.loc(), "the loop over the parts stops before the last one", note)
            recvs = [e.data["recv"] for e in tells]
            ctx.check("each-part-told", len(set(recvs)) == len(recvs), construct, m.loc(), "a part is told the same evaluation twice", note)
            justified = any(r == "crossing" for r in reasons) or any(r == "budget" for r in reasons) and len(elems) >= 1 and all(reasons)
            ctx.check("told", bool(done) or bool(other) or justified or bool(sup), construct, m.loc(), "a path accepts the loss and tells no part", note)
            for e in tells:
                a0, a1 = arg(e, 0, "candidate"), arg(e, 1, "loss")
                okc = False
                if a0 == cand:
                    okc = which == "asked" and (pass_through or name == "_MSR" or ask is not None and ask.cls is not cls) or which == "not asked" and not mappings
                elif a0 is not None:
                    mp = stored(a0, cand)
                    okc = mp is not None and mp in mappings or converted(a0, cand)
                    if mp is not None and okc and a0[0] in ("item", "sub") and e.data["recv"][0] in ("item", "sub"):
                        # the counterpart number k goes to the part number k
                        okc = position(a0) == position(e.data["recv"]) and e.data["recv"][1][0] == "attr" and a0[1][0] != "sub"
                check_slices(ctx, p, e, a0, list(dict.fromkeys(x for _, x in elems)), construct, m.loc(), note)
                ctx.check("right-candidate", okc, construct, m.loc(), f"tells {show(a0) if a0 else None}: neither the candidate of this part nor its conversion", note)
                okl = a1 == loss or a1 is not None and name == "_MSR" and contains(a1, loss)  # random weightings of the objectives
                ctx.check("right-loss", okl, construct, m.loc(), f"tells the loss {show(a1) if a1 else None} instead of the told one", note)


def check_pickling(ctx: Ctx, cls: ClassInfo, parts: tp.Set[str]) -> None:
    m = cls.find_method("enable_pickling")
    if m is None or m.cls is optimizer(ctx):
        ctx.bad("pickling-forwarded", f"{cls.name}.enable_pickling", f"{cls.module.name}:{cls.node.lineno}", "the parts are never asked to become picklable")
        return
    if m.cls is not cls and "optim" not in cls.methods and not (parts - part_attrs(ctx, m.cls)):
        return
    listed = set()
    for c in cls.mro:
        for f in c.methods.values():
            for n in walk_local(f.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and ("List" in ast.unparse(n.annotation) or "list[" in ast.unparse(n.annotation) or "Sequence" in ast.unparse(n.annotation)):
                    listed.add(n.target.attr)
    for p in ctx.paths(m, P(opaque=frozenset(["enable_pickling", "optim"]), unroll=(1, 2)), cls):
        calls = part_calls(p, parts, "enable_pickling")
        iters = [e for e in p.events if e.kind == "iter"]
        ok = p.kind == "return" and len(calls) >= max(1, len(iters))
        if ok and listed & {root(e.data["recv"]) for e in calls}:
            ok = bool(iters)
        ctx.check("pickling-forwarded", ok, f"{cls.name}.enable_pickling", m.loc(), "a path does not forward the request to every part", path_note(p))


def check_inverse(ctx: Ctx, cls: ClassInfo) -> None:
    """A part working in other coordinates is told points in its own coordinates (identity of the terms, tested on arbitrary rationals)."""
    ask, notasked = cls.find_method("_internal_ask_candidate"), cls.find_method("_internal_tell_not_asked")
    if ask is None or notasked is None or notasked.cls is optimizer(ctx) or not any(m in cls.methods for m in ("_internal_ask_candidate", "_internal_tell_not_asked")):
        return
    pairs: tp.Dict[str, tp.List[tp.Tuple[Term, Term]]] = {"ask": [], "tell": []}
    for m, which in ((ask, "ask"), (notasked, "tell")):
        for p in ctx.paths(m, Pol(), cls):
            for e in p.events:
                if not (is_call(e, "set_standardized_data") and e.data["args"]):
                    continue
                x = e.data["args"][0]
                got = [t for t in subterms(x) if isinstance(t, tuple) and t[:1] == ("call",) and str(t[1]).endswith("get_standardized_data")]
                if which == "ask":
                    got = [t for t in got if isinstance(t[2], tuple) and t[2][:1] == ("call",) and str(t[2][1]).rsplit(".", 1)[-1] == "ask"]
                else:
                    got = [t for t in got if t[2] == ("param", m.params[1].arg)]
                if len(set(got)) != 1 or not isinstance(x, tuple) or x[:1] not in (("bin",), ("neg",), ("un",)) and x != got[0]:
                    continue
                if any(isinstance(t, tuple) and t[:1] == ("call",) and str(t[1]).rsplit(".", 1)[-1] in ("randn", "normal", "uniform", "rand") for t in subterms(x)):
                    if which == "tell":
                        ctx.check("own-coordinates", False, f"{cls.name}._internal_tell_not_asked", m.loc(), f"the loss of a told point is given to the part for a point moved at random: {show(x)[:120]}", path_note(p))
                    continue  # a random shift cannot be undone
                pairs[which].append((x, got[0]))
    for x, g in pairs["ask"]:
        for y, h in pairs["tell"]:
            rnd = random.Random(1)
            v = fractions.Fraction(rnd.randint(2, 10**6), 7)
            env = {g: v}
            try:
                sent = evaluate(x, env, rnd)
                known = set(env)
                env[h] = sent
                back = evaluate(y, env, rnd)
                decided = set(env) <= known | {h}  # another factor than the one of ask cannot be compared
            except (KeyError, ZeroDivisionError, TypeError):
                back, decided = v, False
            ctx.check("own-coordinates", back == v or not decided, f"{cls.name}._internal_tell_not_asked", notasked.loc(), f"a point which was not asked is told to the part as {show(y)[:100]} although the part's own points are sent as {show(x)[:100]}")


def check_construction(ctx: Ctx, cls: ClassInfo, parts: tp.Set[str]) -> None:
    """every construction of a part uses self.parametrization, or a parametrization whose random state was synchronised before"""
    for m in list(cls.methods.values()):
        for n in walk_local(m.node):
            call: tp.Optional[ast.Call] = None
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr in parts for t in n.targets):
                call = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert") and isinstance(n.func.value, ast.Attribute) and n.func.value.attr in parts and n.args and isinstance(n.args[-1], ast.Call):
                call = n.args[-1]
            if call is None or not call.args and not call.keywords:
                continue
            if isinstance(call.func, ast.Name) and call.func.id in ("list", "tuple", "dict"):
                continue
            first = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == "parametrization"), None)
            construct = f"{cls.name}.{m.name}:{ast.unparse(call.func)[:40]}"
            if first is None:
                continue
            text = ast.unparse(first)
            ok = text == "self.parametrization"
            if not ok and isinstance(first, ast.Name):
                def synced(node: ast.AST) -> bool:
                    return isinstance(node, ast.Assign) and any(ast.unparse(t) == f"{first.id}.random_state" for t in node.targets) and ast.unparse(node.value) in ("self.parametrization.random_state", "self._rng")  # type: ignore
                ok = any(synced(x) and x.lineno < call.lineno for x in walk_local(m.node))
                if not ok:  # local alias of self.parametrization
                    ok = any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == first.id for t in x.targets) and ast.unparse(x.value) == "self.parametrization" for x in walk_local(m.node))
            ctx.check("shared-parametrization", ok, construct, m.loc(call), f"a part is built on {text}, not on the parametrization of the whole or a synchronised one")
            rest = list(call.args[1:]) + [k.value for k in call.keywords]
            texts = [ast.unparse(r) for r in rest] + [str(k.arg) for k in call.keywords]
            ctx.check("shared-budget", any("budget" in t for t in texts) and any("workers" in t for t in texts), construct, m.loc(call), "the budget or the worker count is not handed to the part")


def check_turns(ctx: Ctx, portfolio: ClassInfo) -> None:
    """a portfolio whose parts are replaced after initialization recomputes its turns, and keeps the parts"""
    for cls in [c for c in portfolio.all_subclasses()]:
        init = cls.methods.get("__init__")
        if init is None:
            continue
        for p in ctx.paths(init, P(opaque=CONTRACT | frozenset(["__init__", "rescaled"]), unroll=(1,), keep=lambda c: True), cls):
            if p.kind != "return":
                continue
            changed, turned, dropped, based = None, False, False, 0
            for e in p.events:
                if e.kind == "call" and short(e) == "__init__" and (e.data["recv"] == SELF or e.data["recv"] is None or e.data["recv"][0] in ("super", "param")):
                    if changed is not None:
                        dropped = True
                    based += 1
                elif e.kind == "call" and short(e) in ("clear", "extend", "append", "insert") and e.data["recv"] == attr("optims"):
                    changed, turned = e, False
                elif e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == "optims":
                    changed, turned = e, False
                elif e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == "turns":
                    turned = True
            if changed is None:
                continue
            if dropped:
                ctx.bad("parts-kept", f"{cls.name}.__init__", init.loc(), "the parts built here are dropped by a second initialization of the base class: the optimizer silently runs the default portfolio", path_note(p))
            else:
                ctx.ok("parts-kept", cls.name)
                ctx.check("turns", turned, f"{cls.name}.__init__", init.loc(), "the parts are replaced but the turns still refer to the former ones", path_note(p))


def check(ctx: Ctx) -> None:
    ctx.rule("ask-from-part", "every candidate asked to a part is returned or stored with the returned candidate; some path asks a part", 6)
    ctx.rule("attribution", "the index recorded with a candidate is the one of the part which produced it", 2)
    ctx.rule("one-per-part", "one counterpart is stored for each part, in order", 1)
    ctx.rule("told", "every path which accepts a loss tells at least one part", 6)
    ctx.rule("each-part-told", "each part visited is told once, unless its budget, a crossing restriction or its refusal excludes it", 6)
    ctx.rule("right-candidate", "a part is told its own candidate: the told one when ask passes it through, the stored counterpart, or a conversion", 6)
    ctx.rule("slices", "the variables told to a part which has some of them only are its own: they start where those of the previous parts end", 0)
    ctx.rule("right-loss", "a part is told the told loss", 6)
    ctx.rule("pickling-forwarded", "enable_pickling reaches every part", 4)
    ctx.rule("shared-parametrization", "parts are built on the parametrization of the whole, or on one with the same random state", 4)
    ctx.rule("shared-budget", "parts receive a budget and a worker count", 4)
    ctx.rule("parts-kept", "the parts a portfolio builds are the ones it runs", 1)
    ctx.rule("own-coordinates", "a part working at another scale is told the points it did not ask for in its own coordinates", 1)
    ctx.rule("turns", "turns refer to the current parts", 1)
    opt = optimizer(ctx)
    classes = []
    for cls in sorted(opt.all_subclasses(), key=lambda c: c.fullname):
        if not cls.module.name.startswith(OPT) or ".test_" in cls.module.name:
            continue
        parts = part_attrs(ctx, cls)
        if parts:
            classes.append(cls.name)
            check_class(ctx, cls, parts)
            check_pickling(ctx, cls, parts)
            check_construction(ctx, cls, parts)
            check_inverse(ctx, cls)
    ctx.notes.append("optimizers made of optimizers: " + ", ".join(classes))
    check_turns(ctx, ctx.project.cls(OL, "Portfolio"))
