"""minimize: budget and job bookkeeping."""
from __future__ import annotations

from .common import *
from ..interp import State

EXPLANATION = (
    "Paths of Optimizer.minimize (helpers inlined; ask, tell, submit, result may raise) are enumerated from an arbitrary resumable "
    "state: the number of asks is bounded by terms of the loop bound, every asked candidate is submitted and queued once, every "
    "finished job is told once with its own candidate and dequeued only after the tell, the split of jobs is a partition, the "
    "loop only ends when nothing is pending or time is over, and only the early-stopping exception of ask is caught."
)
RUN, FIN = attr("_running_jobs"), attr("_finished_jobs")


class Pol(P):
    opaque = CONTRACT | {"_warn", "sleep", "start_timer", "stop_timer", "done", "result", "submit"}
    ignore = frozenset(["builtins.print"])
    stable_attrs = frozenset(["budget", "num_workers"])
    raising: tp.FrozenSet[str] = frozenset()

    def raises(self, event: Event) -> bool:
        return short(event) in self.raising and not event.data.get("raised")


def same_job(t: Term, x: Term) -> bool:
    """the pair itself, or a pair of its two elements"""
    if t == x:
        return True
    if not (isinstance(t, tuple) and t and t[0] == "tuple"):
        return False
    elems = t[1] if len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:]
    return len(elems) == 2 and all(isinstance(e, tuple) and e[0] in ("item", "sub") and e[1] == x and (e[2] == k or e[2] == const(k)) for k, e in enumerate(elems))


def upper_bounds(t: Term) -> tp.Set[Term]:
    out = {t}
    if t[0] == "call" and t[1] == "builtins.min":
        for a in t[3]:
            out |= upper_bounds(a)
    if t[0] == "call" and t[1] == "builtins.max" and any(is_const(a) and a[2] == 0 for a in t[3]):
        rest = [a for a in t[3] if not is_const(a)]
        if len(rest) == 1:
            out |= upper_bounds(rest[0])
    if t[0] == "call" and t[1] == "builtins.int" and t[3]:
        out |= upper_bounds(t[3][0])
    return out


def base_state(verbose: tp.Optional[bool], func: FuncInfo) -> State:
    st = State()
    if verbose is not None:
        st.assume[("truth", ("param", "verbosity"))] = verbose
    return st


def check(ctx: Ctx) -> None:
    cls = optimizer(ctx)
    f = cls.find_method("minimize")
    if f is None:
        raise AnalysisBroken("Optimizer.minimize vanished")
    ctx.rule("ask-bounded", "asks happen at most min(budget - num_ask, num_workers - len(running)) times per round", 10)
    ctx.rule("submit-once", "each asked candidate is submitted once with its own args and kwargs and queued once with its job", 10)
    ctx.rule("tell-own-job", "each finished job is told once, with its own candidate and result, and dequeued after the tell", 10)
    ctx.rule("split-partition", "each running job goes to exactly one of the running/finished queues according to done(), and pending finished jobs are never overwritten", 10)
    ctx.rule("ends-when-done", "minimize ends only when no budget, no running and no finished job remains, or the time is over", 10)
    ctx.rule("errors-propagate", "only the early stopping exception raised by ask is caught; nothing is asked after it", 10)
    runs = [
        ("rounds", dict(unroll=(1,), while_unroll=2, raising=frozenset()), False),
        ("one-round", dict(unroll=(0, 2), while_unroll=1, raising=frozenset(["ask"])), False),
        ("verbose", dict(unroll=(1,), while_unroll=1, raising=frozenset()), True),
        ("errors", dict(unroll=(1,), while_unroll=1, raising=frozenset(["ask", "tell", "result", "submit"])), False),
        ("early-stop", dict(unroll=(1,), while_unroll=2, raising=frozenset(["ask"])), False),
    ]
    if ctx.tier == "thorough":
        runs.append(("thorough", dict(unroll=(0, 1, 2), while_unroll=1, raising=frozenset(["ask", "tell", "result", "submit"]), max_paths=200000), False))
    for name, kw, verbose in runs:
        st = base_state(verbose, f)
        if name in ("rounds", "early-stop"):
            st.assume[("cmp", "is", ("param", "executor"), NONE)] = False
            st.assume[("cmp", "is", ("param", "constraint_violation"), NONE)] = True
            st.assume[("cmp", "is", ("param", "max_time"), NONE)] = True
            st.assume[("truth", ("param", "batch_mode"))] = False
        try:
            paths = ctx.paths(f, Pol(**kw), state=st)
        except AnalysisBroken:
            if kw["while_unroll"] == 1 and kw["unroll"] == (1,):
                raise
            ctx.notes.append(f"run {name}: too many paths, one round and one iteration only")
            paths = ctx.paths(f, Pol(**dict(kw, while_unroll=1, unroll=(1,))), state=base_state(verbose, f))
        for p in paths:
            check_path(ctx, f, p)
    check_polls(ctx, f)
    check_delayed(ctx)
    ctx.rule("no-override", "an optimizer which overrides minimize only refuses to run", 1)
    for c in cls.all_subclasses():
        ctx.ok("no-override")
        if "minimize" in c.methods:
            m = c.methods["minimize"]
            refuses = all(p.kind == "raise" for p in ctx.paths(m, P(), c))
            ctx.check("no-override", refuses, f"{c.fullname}.minimize", m.loc(), "overrides minimize with another bookkeeping")


def check_polls(ctx: Ctx, f: FuncInfo) -> None:
    """A job may end at any time: if two filters ask done() separately, it may be selected by none (or by both)."""
    ctx.rule("one-poll", "each round decides with a single done() test whether a running job is finished", 1)
    polls = []
    for name in sorted({f.fullname} | ctx.functions):
        fn = next((x for x in ctx.project.functions(f.module.name) if x.fullname == name), None)
        if fn is None:
            continue
        for n in walk_local(fn.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "done" and not n.args):
                continue
            x: tp.Any = n
            while x is not None and not isinstance(x, ast.stmt):
                par = getattr(x, "_nv_parent", None)
                if isinstance(par, ast.comprehension) and x in par.ifs or isinstance(par, ast.Call) and x in par.args and isinstance(par.func, (ast.Name, ast.Attribute)) and getattr(par.func, "id", getattr(par.func, "attr", "")) in ("filter", "filterfalse"):
                    polls.append((fn, n))
                    break
                x = par
            if isinstance(x, ast.stmt):
                ctx.ok("one-poll")
    ctx.check("one-poll", len(polls) < 2, "Optimizer.minimize:polls", polls[-1][0].loc(polls[-1][1]) if polls else f.loc(), "two filters ask done() separately: a job which ends in between belongs to no queue")


def check_path(ctx: Ctx, f: FuncInfo, p: Path) -> None:
    C = "Optimizer.minimize"
    note = path_note(p)
    loops: tp.Dict[int, Term] = {}
    current: tp.List[int] = []
    asked: tp.List[Term] = []
    stopped = False
    pending_tell = 0
    run_value: Term = RUN
    for i, e in enumerate(p.events):
        if e.kind == "iter":
            if e.data["lid"] not in current:
                current.append(e.data["lid"])
            if e.data["it"] is not None:
                loops[e.data["lid"]] = e.data["it"]
        elif e.kind in ("loopend", "loopbreak"):
            current = [x for x in current if x != e.data["lid"]]
        elif e.kind == "caught":
            before = [x for x in p.events[:i] if x.kind == "call"]
            src = before[-1] if before else None
            good = e.data["handler"].rsplit(".", 1)[-1] == "NevergradEarlyStopping" and src is not None and short(src) == "ask"
            ctx.check("errors-propagate", good, C + ":catch", e.loc, f"catches {e.data['handler'] or 'everything'} raised by {src!r}", note)
            stopped = True
        elif is_call(e, "ask") and e.data["recv"] == SELF:
            if stopped:
                ctx.bad("errors-propagate", C + ":ask-after-stop", e.loc, "asks again after an early stopping", note)
            if e.data.get("raised"):
                continue
            asked.append(e.data["result"])
            bounds: tp.Set[Term] = set()
            for lid in current:
                it = loops.get(lid)
                if it is not None and it[0] == "call" and it[1] == "builtins.range":
                    bounds |= upper_bounds(it[3][-1])
            # explicit guards (while form): num_ask < budget, len(running) < num_workers
            for t, b in e.cond_list():
                if b and t[0] == "cmp" and t[1] == "<":
                    bounds.add(("bin", "-", t[3], t[2]))
                if not b and t[0] == "cmp" and t[1] == "<=":
                    bounds.add(("bin", "-", t[2], t[3]))
            left = ("bin", "-", attr("budget"), attr("_num_ask"))
            okb = left in bounds
            okw = any(x[0] == "bin" and x[1] == "-" and x[2] == attr("num_workers") and x[3][0] == "call" and x[3][1] == "builtins.len" and x[3][3][0] == run_value for x in bounds)
            ctx.check("ask-bounded", okb, C + ":budget", e.loc, "the number of asks is not bounded by the remaining budget", note)
            ctx.check("ask-bounded", okw, C + ":workers", e.loc, "the number of asks is not bounded by the number of free workers", note)
        elif e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] in ("_running_jobs", "_finished_jobs"):
            if e.data["name"] == "_running_jobs":
                run_value = e.data["value"]
            else:
                dec = [b for t, b in e.cond_list() if t == ("truth", FIN)]
                first = not any(x.kind == "setattr" and x.data["name"] == "_finished_jobs" for x in p.events[:i])
                if first:
                    ok = bool(dec) and dec[-1] is False
                    ok = ok or contains(e.data["value"], FIN)
                    ctx.check("split-partition", ok, C + ":overwrite", e.loc, "finished jobs are replaced while some may not have been told", note)
        elif e.kind == "call" and e.data["recv"] is not None and contains(e.data["recv"], FIN) and short(e) in ("clear",):
            ctx.bad("split-partition", C + ":overwrite", e.loc, "finished jobs are dropped", note)
    # submissions
    subs = [e for e in p.events if is_call(e, "submit")]
    apps = [e for e in p.events if is_call(e, "append", "extend", "add", "insert", "appendleft") and any(contains(a, x) for a in e.data["args"] for x in asked)]
    for x in asked:
        s = [e for e in subs if any(contains(a, x) for a in e.data["args"] + tuple(v for _, v in e.data["kwargs"]))]
        if p.kind == "raise" and (not s or s[-1].data.get("raised")):
            continue
        if len(s) != 1:
            ctx.bad("submit-once", C + ":submit", s[-1].loc if s else f.loc(), f"an asked candidate is submitted {len(s)} times", note)
            continue
        a = s[0].data["args"]
        xa, xk = (("attr", x, "args"),), ("attr", x, "kwargs")
        good = len(a) == 2 and a[0] == ("param", "objective_function") and a[1] == ("star", ("attr", x, "args")) and s[0].data["kwargs"] == (("**", xk),)
        ctx.check("submit-once", good, C + ":arguments", s[0].loc, f"submitted as {s[0]!r}", note)
        q, moved = [], set()
        for e in p.events:
            if e.kind == "iter":
                moved.add(e.data["elem"])
            elif e in apps and any(contains(y, x) for y in e.data["args"]) and not any(y in moved for y in e.data["args"]):
                q.append(e)
        good = len(q) == 1 and q[0].data["args"][-1] == ("tuple", (x, s[0].data["result"]))
        ctx.check("submit-once", good, C + ":queue", q[0].loc if q else s[0].loc, f"an asked candidate is queued {len(q)} time(s)", note)
        if good:
            ctx.check("submit-once", q[0].data["recv"] is not None and (q[0].data["recv"] == RUN or q[0].data["recv"][0] == "list"), C + ":queue-where", q[0].loc, "queued elsewhere than in the running jobs", note)
    # tells
    state = "idle"
    fins = [FIN]
    for e in p.events:
        if e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == "_finished_jobs":
            fins.append(e.data["value"])
        if is_call(e, "tell") and e.data["recv"] == SELF:
            x, loss = arg(e, 0, "candidate"), arg(e, 1, "loss")
            job = x[1] if x is not None and x[0] == "sub" and is_const(x[2]) and x[2][2] == 0 else None
            res = loss[2] if loss is not None and loss[0] == "call" and loss[1].rsplit(".", 1)[-1] == "result" else None
            good = job is not None and res == ("sub", job, const(1))
            if job is None and res is not None:  # queues whose content is known on this path
                for src_x in [e2.data["args"][-1] for e2 in p.events if is_call(e2, "append") and e2.data["args"]] + [v for fz in fins for v in p.heap.get((fz, "#items"), ())]:
                    if src_x[0] == "tuple" and src_x[1] == (x, res):
                        job, good = src_x, True
            ctx.check("tell-own-job", good, C + ":pairing", e.loc, f"tells {show(x)} with {show(loss)}", note)
            src = job is not None and (any(contains(job, z) for z in fins) or job[0] in ("item", "tuple"))
            ctx.check("tell-own-job", src, C + ":source", e.loc, "told job does not come from the finished queue", note)
            if state == "told":
                ctx.bad("tell-own-job", C + ":dequeue", e.loc, "a job is told again before the previous one is dequeued", note)
            state = "told" if not e.data.get("raised") else "failed"
        elif e.kind == "call" and e.data["recv"] in fins and short(e) in ("popleft", "pop", "remove") or e.kind == "delitem" and e.data["base"] in fins:
            ctx.check("tell-own-job", state == "told", C + ":dequeue-after", e.loc, "a finished job is dequeued before it was told (an interruption would lose it)", note)
            if e.kind == "call" and short(e) == "pop":
                ctx.check("tell-own-job", arg(e, 0, "") == const(0), C + ":dequeue-end", e.loc, "dequeues another job than the told one", note)
            state = "idle"
    if p.kind == "return":
        ctx.check("tell-own-job", state == "idle", C + ":dequeue", f.loc(), "a told job stays in the finished queue and will be told again", note)
    # partition
    final_run, final_fin = p.heap.get((SELF, "_running_jobs")), p.heap.get((SELF, "_finished_jobs"))
    for i, e in enumerate(p.events):
        if e.kind == "iter" and e.data["it"] is not None and e.data["it"] == RUN or e.kind == "iter" and e.data["it"] is not None and e.data["it"][0] == "list" and contains(e.data["it"], RUN):
            x = e.data["elem"]
            nexti = [j for j in range(i + 1, len(p.events)) if p.events[j].kind in ("iter", "loopend", "loopbreak") and p.events[j].data["lid"] == e.data["lid"]]
            if not nexti:
                continue
            seg = p.events[i + 1 : nexti[0]]
            app = [a for a in seg if is_call(a, "append", "appendleft", "add") and len(a.data["args"]) == 1 and same_job(a.data["args"][0], x)]
            done = [a for a in seg if is_call(a, "done")]
            if len(app) != 1 or not done:
                ctx.bad("split-partition", C + ":one-queue", app[-1].loc if app else e.loc, f"a running job is moved to {len(app)} queue(s)", note)
                continue
            d = [b for t, b in p.events[nexti[0]].cond_list() if t == ("truth", done[-1].data["result"])]
            tgt = app[0].data["recv"]
            want = None
            for w in p.events[nexti[0]:]:
                if w.kind == "setattr" and w.data["base"] == SELF and w.data["name"] in ("_running_jobs", "_finished_jobs") and w.data["value"] == tgt:
                    want = w.data["name"]
                    break
            if tgt == FIN:
                want = "_finished_jobs"
            if d:
                ctx.check("split-partition", want == ("_finished_jobs" if d[-1] else "_running_jobs"), C + ":queue", app[0].loc, f"a job whose done() is {d[-1]} ends in {want}", note)
    # end of the loop
    if p.kind == "return":
        tail = [e for e in p.events if e.kind in ("loopend", "loopbreak") and isinstance(e.node, ast.While)]
        outer = [e for e in tail if not any(is_call(x, "ask", "submit", "tell") for x in p.events[p.events.index(e):])]
        if not outer:
            return
        cl = outer[-1].cond_list()
        timed = any(("call" in repr(t) and "time.time" in repr(t)) and not b for t, b in cl)
        if timed:
            ctx.ok("ends-when-done", C)
            return
        for attr_name, cur, init in (("_running_jobs", final_run, RUN), ("_finished_jobs", final_fin, FIN)):
            cur = cur if cur is not None else init
            empty = cur[0] in ("list", "call") and p.heap.get((cur, "#items")) == () and not any(is_call(x, "append", "extend") and x.data["recv"] == cur for x in p.events)
            dec = [b for t, b in cl if t == ("truth", cur)]
            # a deque built empty and never filled is empty as well
            empty = empty or (cur[0] == "call" and cur[1].endswith("deque") and not cur[3] and not any(is_call(x, "append", "extend") and x.data["recv"] == cur for x in p.events))
            ctx.check("ends-when-done", empty or (bool(dec) and dec[-1] is False), C + ":" + attr_name, outer[-1].loc, f"minimize may end while {attr_name} is not empty", note)


def check_delayed(ctx: Ctx) -> None:
    """The sequential executor runs each submitted job once, lazily, and lets its error through."""
    ctx.rule("sequential-executor", "a job of the default executor evaluates its function at most once, with its own arguments, and caches the result", 4)
    seq = ctx.project.cls(OPT + ".utils", "SequentialExecutor")
    sub = seq.find_method("submit")
    if sub is None:
        raise AnalysisBroken("SequentialExecutor.submit vanished")
    job: tp.Optional[ClassInfo] = None
    for p in ctx.paths(sub, P()):
        c = [e for e in p.events if e.kind == "call" and isinstance(e.data["callee"], ClassInfo)]
        if len(c) == 1 and p.value == c[0].data["result"]:
            a = c[0].data["args"]
            ctx.check("sequential-executor", a == (("param", "fn"), ("star", ("param", "args"))) and c[0].data["kwargs"] == (("**", ("param", "kwargs")),), "SequentialExecutor.submit", c[0].loc, f"job built with {a}")
            job = c[0].data["callee"]
        else:
            ctx.bad("sequential-executor", "SequentialExecutor.submit", sub.loc(), "submit does not return one job")
    if job is None:
        return
    init, res = job.find_method("__init__"), job.find_method("result")
    if init is None or res is None:
        raise AnalysisBroken("job of the sequential executor has no result method")
    ip = [p for p in ctx.paths(init, P()) if p.kind == "return"]
    store = {v: k[1] for p in ip for k, v in p.heap.items() if k[0] == SELF}
    fn, ar, kwa = (store.get(("param", x)) for x in ([a.arg for a in init.params][1], init.node.args.vararg.arg if init.node.args.vararg else "", init.node.args.kwarg.arg if init.node.args.kwarg else ""))
    if None in (fn, ar, kwa):
        ctx.bad("sequential-executor", f"{job.name}.__init__", init.loc(), "the job does not keep its function and arguments")
        return
    for p in ctx.paths(res, P()):
        if p.kind != "return":
            continue
        calls = [e for e in p.events if e.kind == "call" and (e.data["recv"] == attr(fn) or e.data["recv"] == SELF and short(e) == fn)]
        if not calls:
            ok = p.value[0] == "attr" and p.value[1] == SELF and len(p.conds) >= 1
            ctx.check("sequential-executor", ok, f"{job.name}.result:cached", res.loc(), "does not return the cached result", path_note(p))
            continue
        good = len(calls) == 1 and calls[0].data["args"] == (("star", attr(ar)),) and calls[0].data["kwargs"] == (("**", attr(kwa)),) and p.value == calls[0].data["result"]
        ctx.check("sequential-executor", good, f"{job.name}.result:call", calls[0].loc, f"evaluates as {calls[0]!r}, {len(calls)} time(s)", path_note(p))
        # the guard tested false on this path must be set, so that it is not evaluated again
        guards = [(t, b) for t, b in p.conds]
        again = False
        for t, b in guards:
            core = t[1] if t[0] == "truth" else (t[2] if t[0] == "cmp" else None)
            if core is not None and core[0] == "attr" and core[1] == SELF:
                new = p.heap.get((SELF, core[2]))
                if new is not None and new != core:
                    if t[0] == "truth":
                        again = again or is_const(new) and bool(new[2]) != b
                    else:
                        again = again or new != NONE
        ctx.check("sequential-executor", again, f"{job.name}.result:once", calls[0].loc, "nothing records that the evaluation was done", path_note(p))
