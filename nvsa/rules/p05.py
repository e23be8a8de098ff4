"""Ask/tell accounting."""
from __future__ import annotations

from .common import *

EXPLANATION = (
    "Every path of Optimizer.ask and Optimizer.tell (helpers inlined, loops up to 2 iterations, opaque extension points) is "
    "enumerated over canonical terms; each returning path must add exactly one to the right counters, register/unregister the "
    "uid of the candidate it returns/receives and deliver the loss exactly once through the route that matches the membership "
    "test made on that path. Argument-rejecting exits must precede every accounting write. Writers of the accounting "
    "attributes are enumerated over the whole package."
)
COUNTERS = ("_num_ask", "_num_tell", "_num_tell_not_asked")
ACCOUNT = set(COUNTERS) | {"_asked", "archive", "current_bests"}


def origin_is_suggestion(t: Term) -> bool:
    for s in subterms(t):
        if s[0] == "call" and s[2] is not None and contains(s[2], attr("_suggestions")) and s[1].rsplit(".", 1)[-1] in ("pop", "popleft"):
            return True
        if s[0] == "sub" and contains(s[1], attr("_suggestions")):
            return True
    return False


def modifies_account(e: Event) -> bool:
    if e.kind in ("setattr", "delattr") and e.data["base"] == SELF and e.data["name"] in ACCOUNT:
        return True
    if e.kind in ("setitem", "delitem") and e.data["base"][0] == "attr" and e.data["base"][1] == SELF and e.data["base"][2] in ACCOUNT:
        return True
    if e.kind == "call" and e.data["recv"] is not None and e.data["recv"][0] == "attr" and e.data["recv"][1] == SELF and e.data["recv"][2] in ACCOUNT:
        return short(e) in Interp.MUTATORS
    return False


def check_ask(ctx: Ctx) -> None:
    cls = optimizer(ctx)
    f = cls.find_method("ask")
    assert f is not None
    ctx.rule("ask-counts-once", "each returning path of ask leaves _num_ask at its entry value plus one", 20)
    ctx.rule("ask-registers", "each returning path of ask adds the uid of the returned candidate to _asked exactly once unless it stems from a suggestion, after testing it was not there", 20)
    pol = P(opaque=CONTRACT | {"_warn", "_constraint_solver"})
    for p in ctx.paths(f, pol):
        if p.kind != "return":
            continue
        n = p.heap.get((SELF, "_num_ask"))
        want = ("bin", "+", attr("_num_ask"), const(1))
        ctx.check("ask-counts-once", n == want, "Optimizer.ask", f.loc(p.state.stack and f.node), f"a path returns with _num_ask = {show(n) if n else 'unchanged'} instead of its entry value + 1", path_note(p))
        r = p.value
        other = [k for k in COUNTERS[1:] if (SELF, k) in p.heap and p.heap[(SELF, k)] != attr(k)]
        if other:
            ctx.bad("ask-counts-once", "Optimizer.ask", f.loc(), f"a path of ask changes {other}", path_note(p))
        uid = ("attr", r, "uid")
        adds = method_calls(p, attr("_asked"), "add")
        adds += [e for e in method_calls(p, attr("_asked"), "update", "discard", "remove", "clear", "pop")]
        if origin_is_suggestion(r):
            ctx.check("ask-registers", not adds, "Optimizer.ask:suggestion", adds[0].loc if adds else f.loc(), "a suggestion is registered as asked", path_note(p))
        else:
            good = len(adds) == 1 and short(adds[0]) == "add" and arg(adds[0], 0, "") == uid
            ctx.check("ask-registers", good, "Optimizer.ask:asked", adds[0].loc if adds else f.loc(), f"returned candidate {show(r)} registered {[repr(a) for a in adds]}", path_note(p))
            if good:
                tested = (("cmp", "in", uid, attr("_asked")), False) in adds[0].cond_list()
                ctx.check("ask-registers", tested, "Optimizer.ask:duplicate", adds[0].loc, "the candidate is registered without testing that it was not already asked", path_note(p))


def check_tell(ctx: Ctx) -> None:
    cls = optimizer(ctx)
    f = cls.find_method("tell")
    assert f is not None
    ctx.rule("tell-counts-once", "each returning path of tell that accepts the loss adds exactly one to _num_tell, after delivering it", 20)
    ctx.rule("tell-route", "the loss is delivered exactly once, through the asked route iff the uid is in _asked, which is then removed; otherwise the not-asked counter grows by one", 20)
    ctx.rule("tell-reject", "an exit which rejects the arguments precedes every accounting write", 5)
    pol = P(opaque=CONTRACT | {"_warn", "_preprocess_multiobjective", "_update_archive_and_bests", "penalty"}, unroll=(0, 1), ignore=frozenset(["builtins.print", "builtins.len"]))
    cand: Term = ("param", "candidate")
    for p in ctx.paths(f, pol):
        touched = [e for e in p.events if modifies_account(e)]
        deliv = [e for e in p.events if is_call(e, "_internal_tell_candidate", "_internal_tell_not_asked", "_internal_tell") and e.data["recv"] == SELF]
        upd = [e for e in p.events if is_call(e, "_update_archive_and_bests")]
        if p.kind == "raise":
            bad = touched + deliv + upd
            ctx.check("tell-reject", not bad, "Optimizer.tell:reject", bad[0].loc if bad else f.loc(), "tell has already modified its accounting when it rejects its arguments", path_note(p))
            continue
        if p.kind != "return":
            continue
        isref = any(b and t[0] == "inst" and t[1] == cand and t[2].endswith("MultiobjectiveReference") for t, b in p.conds)
        if isref and not deliv:
            none = (("cmp", "is", ("attr", cand, "value"), NONE), True) in p.conds
            ctx.check("tell-counts-once", none and not touched and not upd, "Optimizer.tell:reference", f.loc(), "a reference without a value must return without counting, any other reference must be processed", path_note(p))
            continue
        n = p.heap.get((SELF, "_num_tell"))
        ok = n == ("bin", "+", attr("_num_tell"), const(1))
        ctx.check("tell-counts-once", ok, "Optimizer.tell:num_tell", f.loc(), f"a path returns with _num_tell = {show(n) if n else 'unchanged'}", path_note(p))
        if len(deliv) != 1:
            ctx.bad("tell-route", "Optimizer.tell:delivery", deliv[1].loc if deliv else f.loc(), f"the loss is delivered {len(deliv)} times", path_note(p))
            continue
        d = deliv[0]
        early = [e for e in p.events[: p.events.index(d)] if e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] in COUNTERS]
        ctx.check("tell-counts-once", not early, "Optimizer.tell:count-after", early[0].loc if early else f.loc(), "a tell counter is changed before the loss is delivered to the algorithm (which may raise)", path_note(p))
        x = arg(d, 0, "candidate")
        want_x = ("attr", cand, "value") if isref else cand
        ctx.check("tell-route", x == want_x, "Optimizer.tell:candidate", d.loc, f"the algorithm is told {show(x)} instead of the candidate", path_note(p))
        key = ("cmp", "in", ("attr", want_x, "uid"), attr("_asked"))
        dec = [b for t, b in d.cond_list() if t == key]
        if not dec:
            ctx.bad("tell-route", "Optimizer.tell:membership", d.loc, "the route is chosen without testing whether the candidate was asked", path_note(p))
            continue
        asked = dec[-1]
        route = short(d)
        ctx.check("tell-route", route == ("_internal_tell_candidate" if asked else "_internal_tell_not_asked"), "Optimizer.tell:route", d.loc, f"{'asked' if asked else 'not asked'} candidate delivered through {route}", path_note(p))
        rem = method_calls(p, attr("_asked"), "remove", "discard")
        other = method_calls(p, attr("_asked"), "add", "clear", "update", "pop")
        nna = p.heap.get((SELF, "_num_tell_not_asked"), attr("_num_tell_not_asked"))
        if asked:
            good = len(rem) == 1 and arg(rem[0], 0, "") == key[2] and not other and nna == attr("_num_tell_not_asked")
            ctx.check("tell-route", good, "Optimizer.tell:unregister", d.loc, "an asked candidate must be removed from _asked once, and not counted as not-asked", path_note(p))
            if good:
                ctx.check("tell-route", p.events.index(rem[0]) > p.events.index(d), "Optimizer.tell:unregister-after", rem[0].loc, "the candidate is forgotten before the algorithm accepted it (a failing tell could not be resumed)", path_note(p))
        else:
            good = not rem and not other and nna == ("bin", "+", attr("_num_tell_not_asked"), const(1))
            ctx.check("tell-route", good, "Optimizer.tell:not-asked-count", d.loc, f"_num_tell_not_asked = {show(nna)} after a not-asked tell", path_note(p))


def check_refusals(ctx: Ctx) -> None:
    """a refusal or failure of the algorithm: nothing was counted when tell raises, everything was when it returns"""
    cls = optimizer(ctx)
    f = cls.find_method("tell")
    assert f is not None
    ctx.rule("tell-refused", "tell only returns after a failed delivery for an asked candidate, which is then counted and unregistered; otherwise it raises with its accounting untouched", 4)

    class Pol(P):
        opaque = CONTRACT | {"_warn", "_preprocess_multiobjective", "_update_archive_and_bests", "penalty", "satisfies_constraints"}
        unroll = (0,)
        ignore = frozenset(["builtins.print", "builtins.len"])

        def raises(self, event: Event) -> bool:
            return short(event) in ("_internal_tell_candidate", "_internal_tell_not_asked")

    for p in ctx.paths(f, Pol()):
        failed = [e for e in p.events if is_call(e, "_internal_tell_candidate", "_internal_tell_not_asked") and e.data.get("raised")]
        if not failed:
            continue
        note = path_note(p)
        if p.kind == "raise":
            touched = [e for e in p.events if modifies_account(e)]
            ctx.check("tell-refused", not touched, "Optimizer.tell:refusal", failed[0].loc, "the accounting was modified although the algorithm did not take the loss", note)
        elif p.kind == "return":
            ok = short(failed[-1]) == "_internal_tell_candidate" and p.heap.get((SELF, "_num_tell")) == ("bin", "+", attr("_num_tell"), const(1))
            ctx.check("tell-refused", ok, "Optimizer.tell:swallowed", failed[0].loc, "tell returns normally although the algorithm refused the candidate, or without counting it", note)


def check(ctx: Ctx) -> None:
    check_refusals(ctx)
    cls = optimizer(ctx)
    check_ask(ctx)
    check_tell(ctx)
    ctx.rule("single-writer", "the counters and the set of asked uids are only modified by ask, tell, __init__ and their helpers", 8)
    owners = set(ctx.functions) | {cls.methods["__init__"].fullname}
    for f, n, name, base in attribute_writes(ctx.project, set(COUNTERS) | {"_asked"}, "nevergrad"):
        bt = ctx.project.expr_type(base, f)
        if isinstance(bt, ClassInfo) and not bt.is_subclass_of(cls):
            continue
        ctx.check("single-writer", f.fullname in owners, f"{f.fullname}:{name}", f.loc(n), f"{name} is modified outside of ask/tell")
    ctx.rule("counter-properties", "num_ask, num_tell and num_tell_not_asked return the counters", 3)
    for name in ("num_ask", "num_tell", "num_tell_not_asked"):
        m = cls.find_method(name)
        if m is None:
            raise AnalysisBroken(f"property {name} vanished")
        for p in ctx.paths(m, P()):
            ctx.check("counter-properties", p.kind == "return" and p.value == attr("_" + name), f"Optimizer.{name}", m.loc(), f"returns {show(p.value)}")
    ctx.rule("no-override", "no optimizer overrides ask or tell, whose accounting is decided once in the base class", 1)
    for c in cls.all_subclasses():
        for name in ("ask", "tell"):
            if name in c.methods:
                ctx.bad("no-override", f"{c.fullname}.{name}", c.methods[name].loc(), "overrides the accounting entry point")
        ctx.ok("no-override")
    # initial values
    init = cls.methods["__init__"]
    ctx.rule("initial", "the counters start at zero and no candidate is registered", 4)
    for p in ctx.paths(init, P(opaque=CONTRACT | {"sensible_default"})):
        if p.kind != "return":
            continue
        for k in COUNTERS:
            ctx.check("initial", p.heap.get((SELF, k)) == const(0), f"Optimizer.__init__:{k}", init.loc(), f"{k} starts at {show(p.heap.get((SELF, k)))}")
        a = p.heap.get((SELF, "_asked"))
        ctx.check("initial", a is not None and a[0] == "set" and p.heap.get((a, "#items")) == (), "Optimizer.__init__:_asked", init.loc(), "the asked set does not start empty")
