"""Blocking optimizers running in a background thread: handover, answers, clean-up."""
from __future__ import annotations

from .common import *

EXPLANATION = (
    "Paths of the thread's run and of the fake objective: every exit (normal, stop, exception) posts exactly one message, every query posts once then waits once. "
    "Paths of ask and tell of the sequential and batch wrappers: a message is only awaited from a living thread whose last message was not consumed, "
    "exceptions are raised, the end falls back, each pending query gets one answer which is the loss told for it. Optimization functions are checked not to capture the optimizer "
    "other than weakly, nor to swallow the stop exception, nor to wait on anything else."
)
RC = "nevergrad.optimization.recaster"
RL = "nevergrad.optimization.recastlib"


def queue_calls(p: Path, queue: str, *names: str) -> tp.List[Event]:
    return [e for e in p.events if e.kind == "call" and short(e) in names and e.data["recv"] is not None and e.data["recv"][0] == "attr" and e.data["recv"][2] == queue]


def check_thread(ctx: Ctx) -> None:
    ctx.rule("every-exit-reported", "every exit of the background loop posts exactly one last message: None, or the exception", 3)
    ctx.rule("query-once", "each call of the fake objective posts its point once, then waits for one answer, returned as it is; the stop message stops the loop", 2)
    th = ctx.project.cls(RC, "_MessagingThread")
    run, fake, stop = (th.find_method(n) for n in ("run", "_fake_callable", "stop"))
    if run is None or fake is None or stop is None:
        raise AnalysisBroken("_MessagingThread lost run, _fake_callable or stop")

    class Pol(P):
        opaque = frozenset(["_fake_callable"])

        def raises(self, event: Event) -> bool:
            return short(event) == "_caller" and not event.data.get("raised")

        def keep(self, cond: Term) -> bool:
            return True

    kinds = set()
    for p in ctx.paths(run, Pol()):
        note = path_note(p)
        calls = [e for e in p.events if is_call(e, "_caller")]
        puts = queue_calls(p, "messages_ask", "put", "put_nowait")
        raised = any(e.data.get("raised") for e in calls)
        ok = p.kind == "return" and len(puts) == 1 and len(calls) == 1 and p.events.index(puts[0]) > p.events.index(calls[0])
        msg = puts[0].data["args"][0] if puts and puts[0].data["args"] else None
        if ok and raised:
            caught = any(e.kind == "caught" for e in p.events)
            isexc = msg is not None and (msg[0] == "exc" or msg[0] == "new" or (msg[0] in ("ext", "call") and str(msg[1]).startswith("builtins.") and str(msg[1]).endswith(("Error", "Exception"))))
            ok = caught and isexc
            stopped = [e for e in p.events if e.kind == "caught" and "StopOptimizerThread" in e.data["handler"]]
            kinds.add("stop" if stopped else "error")
            if not stopped:
                ok = ok and msg[0] == "exc" and any(e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == "error" and e.data["value"] == msg for e in p.events)
        elif ok:
            kinds.add("end")
            out = [e for e in p.events if e.kind == "setattr" and e.data["name"] == "output"]
            ok = msg == NONE and len(out) == 1 and out[0].data["value"] == calls[0].data["result"] and p.events.index(out[0]) < p.events.index(puts[0])
        if ok:
            a = calls[0].data["args"]
            ok = bool(a) and a[0][0] == "method" and a[0][2] == "_fake_callable"
        ctx.check("every-exit-reported", ok, "_MessagingThread.run", run.loc(), f"an exit of the loop ({'exception' if raised else 'end'}) posts {[show(e.data['args'][0]) for e in puts if e.data['args']]}", note)
    ctx.check("every-exit-reported", kinds >= {"error", "end"}, "_MessagingThread.run:kinds", run.loc(), f"only {sorted(kinds)} exits are handled")

    for p in ctx.paths(fake, Pol()):
        note = path_note(p)
        puts, gets = queue_calls(p, "messages_ask", "put", "put_nowait"), queue_calls(p, "messages_tell", "get", "get_nowait")
        ok = len(puts) == 1 and len(gets) == 1 and p.events.index(puts[0]) < p.events.index(gets[0])
        ok = ok and not gets[0].data["args"] and not gets[0].data["kwargs"]
        ok = ok and puts[0].data["args"] and puts[0].data["args"][0][0] == "sub" and puts[0].data["args"][0][1] == ("param", fake.node.args.vararg.arg if fake.node.args.vararg else "") or ok and puts[0].data["args"][0] == ("param", fake.params[1].arg if len(fake.params) > 1 else "")
        if ok:
            ans = gets[0].data["result"]
            isnone = next((b for t, b in p.conds if t == ("cmp", "is", ans, NONE)), None)
            if p.kind == "return":
                ok = p.value == ans and isnone is False
            else:
                ok = isnone is True and p.value[0] == "new" and p.value[1].endswith("StopOptimizerThread")
        ctx.check("query-once", bool(ok), "_MessagingThread._fake_callable", fake.loc(), "a query is not posted once and answered by exactly the value received, or does not stop on request", note)
    # stopping
    ctx.rule("released", "stopping posts the stop message; deleting the handle or the optimizer stops the thread; nothing else keeps it waiting", 4)
    for p in ctx.paths(stop, Pol()):
        puts = queue_calls(p, "messages_tell", "put", "put_nowait")
        ctx.check("released", p.kind == "return" and len(puts) == 1 and puts[0].data["args"] == (NONE,), "_MessagingThread.stop", stop.loc(), "does not post the stop message", path_note(p))
    handle, rec = ctx.project.cls(RC, "MessagingThread"), ctx.project.cls(RC, "RecastOptimizer")
    for c in (handle, rec):
        d = c.find_method("__del__")
        if d is None:
            ctx.bad("released", f"{c.name}.__del__", c.loc() if hasattr(c, "loc") else RC, "deleting it does not stop the thread")
            continue
        for sub in [c] + [s for s in c.all_subclasses() if "__del__" in s.methods]:
            m = sub.find_method("__del__")
            for p in ctx.paths(m, Pol(opaque=frozenset(["stop"])), sub):
                none = any(t == ("cmp", "is", attr("_messaging_thread"), NONE) and b or t == ("truth", attr("_messaging_thread")) and not b for t, b in p.conds)
                st = [e for e in p.events if is_call(e, "stop")] or queue_calls(p, "messages_tell", "put")
                gone = any(t[0] == "truth" and t[1][0] == "call" and t[1][1].rsplit(".", 1)[-1] == "is_alive" and not b for t, b in p.conds)
                ctx.check("released", none or gone or bool(st), f"{sub.name}.__del__", m.loc(), "a path does not stop the thread", path_note(p))
    st = handle.find_method("stop")
    for p in ctx.paths(st, Pol(opaque=frozenset(["stop"]))) if st is not None else []:
        ctx.check("released", any(is_call(e, "stop") and contains(e.data["recv"], attr("_thread")) for e in p.events) or bool(queue_calls(p, "messages_tell", "put")), "MessagingThread.stop", st.loc(), "does not forward the stop request", path_note(p))
    init = handle.find_method("__init__")
    for p in ctx.paths(init, Pol(opaque=frozenset(["start"]))):
        starts = [e for e in p.events if is_call(e, "start")]
        ctx.check("released", len(starts) == 1, "MessagingThread.__init__", init.loc(), "the thread is not started exactly once", path_note(p))
    # an optimizer left unfinished does not keep the program from ending: its thread is a daemon from its construction on
    tinit = th.find_method("__init__")
    daemon = False
    if tinit is not None:
        for n in walk_local(tinit.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and any(k.arg == "daemon" and isinstance(k.value, ast.Constant) and k.value.value is True for k in n.keywords):
                daemon = True
    for meth in [m for m in (tinit, init) if m is not None]:
        for n in walk_local(meth.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "daemon" for t in n.targets) and isinstance(n.value, ast.Constant) and n.value.value is True:
                starts = [x.lineno for x in walk_local(meth.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "start"]
                daemon = daemon or not starts or n.lineno < min(starts)
    ctx.check("released", daemon, "_MessagingThread:daemon", th.module.name + f":{th.node.lineno}", "the thread is no daemon: the program cannot end while an optimizer is unfinished")
    # who else reads the queues
    ctx.rule("queue-owners", "only the thread and the two wrappers exchange messages", 6)
    allowed = {"_MessagingThread", "MessagingThread", "SequentialRecastOptimizer", "BatchRecastOptimizer", "RecastOptimizer"}
    for f in ctx.project.functions("nevergrad"):
        for n in walk_local(f.node):
            if isinstance(n, ast.Attribute) and n.attr in ("messages_ask", "messages_tell"):
                ctx.check("queue-owners", f.cls is not None and f.cls.name in allowed and f.module.name == RC or f.cls is None and f.module.name == RC, f"{f.fullname}:{n.attr}", f.loc(n), "the message queues are used elsewhere")


def handle_terms(p: Path) -> tp.Set[Term]:
    out = {attr("_messaging_thread")}
    for e in p.events:
        if is_call(e, "MessagingThread"):
            out.add(e.data["result"])
    return out


def flags_reset(p: Path, names: tp.Set[str]) -> bool:
    return any(e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] in names for e in p.events)


def check_ask(ctx: Ctx, cls: ClassInfo, batch: bool) -> None:
    f = cls.find_method("_internal_ask_candidate")
    assert f is not None
    C = f"{cls.name}.ask"

    class Pol(P):
        opaque = CONTRACT | {"is_alive", "join", "_check_error", "can_ask", "get_optimization_function", "_join", "warn"}
        unroll = (0, 1, 2)

        def keep(self, cond: Term) -> bool:
            return True

    class Impatient(Pol):
        """a wait with a limit may end without a message"""

        def raises(self, event: Event) -> bool:
            return short(event) in ("get", "get_nowait") and (short(event) == "get_nowait" or bool(event.data["args"]) or bool(event.data["kwargs"]))

    for p in ctx.paths(f, Impatient()):
        missed = [e for e in queue_calls(p, "messages_ask", "get", "get_nowait") if e.data.get("raised")]
        if missed and p.kind == "return":
            k = p.events.index(missed[-1])
            later = bool(queue_calls(p, "messages_ask", "get")) and any(e in p.events[k + 1 :] for e in queue_calls(p, "messages_ask", "get", "get_nowait"))
            ended = any(t[0] == "truth" and t[1][0] == "call" and t[1][1].rsplit(".", 1)[-1] == "is_alive" and not b for t, b in p.conds)
            ctx.check("waits-only-if-message", later or ended, C + ":limit", missed[-1].loc, "the wait is given up although the thread is alive: its next message would be taken for another query", path_note(p))
    allp = [p for p in ctx.paths(f, Pol())]
    for p in allp:
        note = path_note(p)
        gets = queue_calls(p, "messages_ask", "get", "get_nowait")
        made = [e for e in p.events if is_call(e, "MessagingThread")]
        for e in made:
            none = any(t == ("cmp", "is", attr("_messaging_thread"), NONE) and b or t == ("truth", attr("_messaging_thread")) and not b for t, b in e.cond_list())
            a = e.data["args"]
            ctx.check("thread-once", none and len(a) == 1 and a[0][0] == "call" and a[0][1].endswith("get_optimization_function") and not contains(tuple(x for x in a[0][3]), SELF), C + ":thread", e.loc, "a new thread is started although one exists, or not on the optimization function", note)
            ctx.check("thread-once", any(s.kind == "setattr" and s.data["name"] == "_messaging_thread" and s.data["value"] == e.data["result"] for s in p.events), C + ":thread-kept", e.loc, "the thread is not kept", note)
        if len(gets) > 1:
            ctx.bad("waits-only-if-message", C, gets[1].loc, "waits for two messages", note)
            continue
        dead = False
        if gets:
            g = gets[0]
            conds = g.cond_list()
            alive = any(t[0] == "truth" and t[1][0] == "call" and t[1][1].rsplit(".", 1)[-1] == "is_alive" and b for t, b in conds)
            bounded = bool(g.data["args"]) or bool(g.data["kwargs"]) or short(g) == "get_nowait"
            ctx.check("waits-only-if-message", alive or bounded, C, g.loc, "waits for a message of a thread not known to be alive", note)
            if batch:
                told = any(t[0] == "truth" and t[1][0] == "call" and t[1][1].rsplit(".", 1)[-1] == "can_ask" and b for t, b in conds)
                nobatch = any(t == ("truth", attr("_current_batch")) and not b for t, b in conds)
                ctx.check("waits-only-if-message", told and nobatch, C + ":batch", g.loc, "waits for a batch although the current one is not finished", note)
            m = g.data["result"]
            isexc = any(t[0] == "inst" and t[1] == m and b for t, b in p.conds)
            isnone = any(t == ("cmp", "is", m, NONE) and b for t, b in p.conds)
            known_not_exc = any(t[0] == "inst" and t[1] == m and not b and "Exception" in repr(t[2]) for t, b in p.conds)
            known_not_none = any(t == ("cmp", "is", m, NONE) and not b for t, b in p.conds)
            if isexc or isnone:
                joined = any(is_call(e, "join") for e in p.events) or flags_reset(p, {"_messaging_thread"}) and False
                own = {e.data["name"] for e in p.events if e.kind == "setattr" and e.data["base"] == SELF and is_const(e.data["value"])}
                guard = any(contains(t, attr(nm)) for nm in own for t, _ in conds)
                ctx.check("last-message-once", joined or guard, C, g.loc, "after the last message, the thread may still look alive: the next ask waits forever", note)
            if isexc:
                ctx.check("errors-raised", p.kind == "raise" and contains(p.value, m), C, g.loc, "an error of the background loop is not raised", note)
                continue
            dead = isnone
            if not isnone:
                ctx.check("errors-raised", known_not_exc and known_not_none, C + ":data", g.loc, "a message is used as data although it may be an error or the end", note)
        if p.kind != "return":
            continue
        fallback = dead or (not gets and any(t[0] == "truth" and t[1][0] == "call" and t[1][1].rsplit(".", 1)[-1] == "is_alive" and not b for t, b in p.conds))
        if fallback:
            ok = any(is_call(e, "_check_error") for e in p.events) and any(is_call(e, "warn", "_warn") and "FinishedUnderlyingOptimizerWarning" in repr(e.data["args"]) + repr(e.data["kwargs"]) for e in p.events)
            ctx.check("falls-back", ok and contains_call(p.value, "spawn_child"), C, f.loc(), "the end of the loop is not announced, hides its error or gives no candidate", note)
            ctx.check("answer-once", not any(e.kind == "setattr" and e.data["name"] == "_pending_uid" and e.data["value"] != NONE for e in p.events), C + ":fallback", f.loc(), "a fallback point is registered as a query", note)
        elif gets and not batch:
            m = gets[0].data["result"]
            v = p.value
            ok = contains_call(v, "set_standardized_data") or any(is_call(e, "set_standardized_data") and v in (e.data["recv"], e.data["result"]) and m in e.data["args"] for e in p.events)
            sets = [e for e in p.events if is_call(e, "set_standardized_data") and m in e.data["args"]]
            ok = ok and len(sets) == 1 and v in (sets[0].data["result"], sets[0].data["recv"])
            ctx.check("data-of-message", ok, C, f.loc(), f"returns {show(v)} for the query received", note)
            pend = [e for e in p.events if e.kind == "setattr" and e.data["base"] == SELF and "uid" in repr(e.data["value"]) and contains(e.data["value"], v) or e.kind == "setitem" and contains(e.data.get("idx", NONE), ("attr", v, "uid"))]
            ctx.check("answer-once", bool(pend), C + ":pending", f.loc(), "the query awaiting an answer is not recorded", note)
        elif batch and gets:
            m = gets[0].data["result"]
            its = [e for e in p.events if e.kind == "iter" and e.data["it"] == m]
            sets = [e for e in p.events if is_call(e, "set_standardized_data")]
            ok = all(e.data["args"] and (e.data["args"][0] in [i.data["elem"] for i in its] or contains(e.data["args"][0], m) or e.data["args"][0][0] in ("item",)) for e in sets) and (bool(sets) or not its and any(e.kind == "loopend" and e.data["it"] == m for e in p.events))
            ctx.check("data-of-message", ok, C, f.loc(), "the batch is not built from the points received", note)
            size = p.heap.get((SELF, "batch_size"))
            lens = size is not None and size[0] == "call" and size[1] == "builtins.len" and (size[3] == (m,) or contains(size, m))
            ctx.check("answer-once", lens, C + ":size", f.loc(), "the number of awaited answers is not the number of points", note)
            idx = p.heap.get((SELF, "indices"))
            ctx.check("answer-once", idx is not None and idx[0] == "dict", C + ":indices", f.loc(), "the positions of the points are not recorded", note)


def contains_call(v: Term, name: str) -> bool:
    return any(s[0] == "call" and s[1].rsplit(".", 1)[-1] == name for s in subterms(v))


def check_tell(ctx: Ctx, cls: ClassInfo, batch: bool) -> None:
    f = cls.find_method("_internal_tell_candidate")
    assert f is not None
    C = f"{cls.name}.tell"

    class Pol(P):
        opaque = CONTRACT | {"is_alive", "join", "_check_error", "_post_loss"}
        unroll = (0, 1, 2)

        def keep(self, cond: Term) -> bool:
            return True

    cand, loss = ("param", f.params[1].arg), ("param", f.params[2].arg)
    UID = ("attr", cand, "uid")
    posted_somewhere = False
    for p in ctx.paths(f, Pol()):
        note = path_note(p)
        if p.kind == "raise":
            # (the algorithm's own error, or no thread)
            none = any(t == ("cmp", "is", attr("_messaging_thread"), NONE) and b or t == ("truth", attr("_messaging_thread")) and not b for t, b in p.conds)
            ctx.check("answer-once", none or not queue_calls(p, "messages_tell", "put"), C + ":raise", f.loc(), "raises after answering", note)
            continue
        puts = queue_calls(p, "messages_tell", "put", "put_nowait")
        aliveness = [b for t, b in p.conds if t[0] == "truth" and t[1][0] == "call" and t[1][1].rsplit(".", 1)[-1] == "is_alive"]
        posts = [e for e in p.events if is_call(e, "_post_loss")]
        for e in posts:
            ctx.check("loss-of-query", e.data["args"] == (cand, loss), C, e.loc, "another loss than the one told is posted", note)
        if len(puts) > 1:
            ctx.bad("answer-once", C, puts[1].loc, "answers twice", note)
        if False in aliveness:
            ctx.check("answer-once", not puts and any(is_call(e, "_check_error") for e in p.events), C + ":dead", f.loc(), "answers a finished loop, or hides its error", note)
            continue
        if not batch:
            mine = any(t[0] == "cmp" and t[1] == "==" and UID in t[2:] and b or t[0] == "in" and t[1] == UID and b or t[0] == "cmp" and t[1] == "in" and t[2] == UID and b for t, b in p.conds) or any(e.kind == "delitem" and e.data.get("idx") == UID for e in p.events)
            other = any(t[0] == "cmp" and t[1] == "==" and UID in t[2:] and not b or t[0] == "cmp" and t[1] == "in" and t[2] == UID and not b or t[0] == "in" and t[1] == UID and not b for t, b in p.conds)
            if puts:
                posted_somewhere = True
                ctx.check("answer-once", mine, C + ":pending", puts[0].loc, "answers a query which may not be the one of this candidate", note)
                cleared = any(e.kind == "setattr" and e.data["base"] == SELF and e.data["value"] == NONE and any(contains(t, attr(e.data["name"])) for t, _ in p.conds) or e.kind in ("delitem",) or is_call(e, "pop", "discard", "remove") and UID in e.data["args"] for e in p.events)
                ctx.check("answer-once", cleared, C + ":cleared", puts[0].loc, "the same query can be answered again", note)
                ctx.check("loss-of-query", len(posts) == 1 and puts[0].data["args"] == (posts[0].data["result"],), C + ":value", puts[0].loc, "the answer is not the loss told", note)
            else:
                ctx.check("answer-once", other, C + ":unanswered", f.loc(), "a pending query is not answered", note)
            rec = [e for e in p.events if e.kind == "call" and short(e) == "append" and e.data["recv"] == attr("replay_archive_tell")]
            enabled = any(t == ("truth", attr("_enable_pickling")) and b for t, b in p.conds)
            disabled = any(t == ("truth", attr("_enable_pickling")) and not b for t, b in p.conds)
            ctx.check("replayable", (len(rec) == 1 and bool(puts)) if (enabled and puts) else not rec or bool(puts), C + ":archive", f.loc(), "answers are not recorded one by one for replays", note)
            if puts and not enabled and not disabled:
                ctx.check("replayable", bool(rec), C + ":archive-unconditional", f.loc(), "answers are never recorded", note)
            for e in rec:
                a = e.data["args"][0]
                ctx.check("replayable", contains(a, cand) and bool(posts) and contains(a, posts[0].data["result"]), C + ":record", e.loc, f"records {show(a)}: the posted loss cannot be replayed", note)
        else:
            pops = [e for e in p.events if is_call(e, "pop") and e.data["recv"] == attr("indices")]
            member = [b for t, b in p.conds if (t[0] in ("in",) and t[1] == UID or t[0] == "cmp" and t[1] in ("in", "not in") and t[2] == UID)]
            if not pops:
                ctx.check("answer-once", False in member and not puts, C + ":out-of-batch", f.loc(), "an answer is not matched with its point", note)
                continue
            e = pops[0]
            if any(t == ("cmp", "is", e.data["result"], NONE) and b for t, b in p.conds):
                ctx.check("answer-once", not puts, C + ":out-of-batch", f.loc(), "answers for a point out of the batch", note)
                continue
            safe = True in member or len(e.data["args"]) > 1
            ctx.check("answer-once", len(pops) == 1 and e.data["args"][0] == UID and safe, C + ":index", e.loc, "the position of the point is not taken exactly once, or may be missing", note)
            stores = [x for x in p.events if x.kind == "setitem" and x.data["base"] == attr("_batch_losses")]
            ctx.check("loss-of-query", len(stores) == 1 and stores[0].data["idx"] == e.data["result"] and bool(posts) and stores[0].data["value"] == posts[0].data["result"], C + ":value", f.loc(), "the loss is not stored at the position of its point", note)
            count = attr("_tell_counter")
            after = [("bin", "+", count, const(1)), ("bin", "+", const(1), count)]
            full = [b for t, b in p.conds if t[0] == "cmp" and t[1] == "==" and attr("batch_size") in t[2:] and any(a in t[2:] for a in after)]
            full += [b if t[1] == "<=" else not b for t, b in p.conds if t[0] == "cmp" and (t[1] == "<=" and t[2] == attr("batch_size") and t[3] in after or t[1] == "<" and t[3] == attr("batch_size") and t[2] in after)]
            full += [not b for t, b in p.conds if t == ("truth", attr("indices"))]
            posted_somewhere |= bool(puts)
            if puts:
                ctx.check("answer-once", full == [True] and contains(puts[0].data["args"], attr("_batch_losses")), C + ":complete", puts[0].loc, "the answers are posted before the batch is complete", note)
                cnt = p.heap.get((SELF, "_tell_counter"))
                ctx.check("answer-once", cnt is not None and is_const(cnt) and cnt[2] == 0, C + ":reset", f.loc(), "the counter of answers is not reset", note)
            else:
                ctx.check("answer-once", full == [False], C + ":posted", f.loc(), "a complete batch is not posted", note)
            inc = [x for x in p.events if x.kind == "aug" and x.data["old"] == attr("_tell_counter")]
            inc2 = any(x.kind == "setattr" and x.data["name"] == "_tell_counter" and x.data["value"] in (("bin", "+", attr("_tell_counter"), const(1)), ("bin", "+", const(1), attr("_tell_counter"))) for x in p.events)
            ctx.check("answer-once", inc2 or (len(inc) == 1 and inc[0].data["op"] == "+" and inc[0].data["value"] == const(1)), C + ":count", f.loc(), "answers are not counted", note)
    ctx.check("answer-once", posted_somewhere, C + ":never", f.loc(), "queries are never answered")


def check_replay(ctx: Ctx, cls: ClassInfo) -> None:
    f, g = cls.find_method("__setstate__"), cls.find_method("__getstate__")
    if f is None or g is None:
        raise AnalysisBroken("recast optimizers lost their state hooks")

    class Pol(P):
        opaque = (CONTRACT - {"_internal_tell_candidate"}) | {"is_alive", "join", "_check_error", "_post_loss", "_internal_ask_candidate", "update"}
        unroll = (0, 1, 2)

        def keep(self, cond: Term) -> bool:
            return any(s[0] == "attr" and s[2] in ("_pending_uid", "_enable_pickling") for s in subterms(cond))

    for p in ctx.paths(f, Pol()):
        if p.kind != "return":
            continue
        note = path_note(p)
        its = [e for e in p.events if e.kind == "iter" and contains(e.data["it"], attr("replay_archive_tell"))]
        asks = [e for e in p.events if is_call(e, "_internal_ask_candidate")]
        puts = queue_calls(p, "messages_tell", "put")
        extra = len(asks) - len(its)
        ok = len(puts) == len(its) and extra in (0, 1)
        # each answer is the recorded loss, after the corresponding query
        for k, (it, e) in enumerate(zip(its, puts)):
            ok = ok and bool(e.data["args"]) and contains(e.data["args"][0], it.data["elem"]) or ok and it.data["elem"][0] == "tuple" and any(contains(e.data["args"][0], x) for x in subterms(it.data["elem"]) if x[0] in ("sub", "item", "attr"))
            ok = ok and k < len(asks) and p.events.index(asks[k]) < p.events.index(e)
        ctx.check("replayable", bool(ok), f"{cls.name}.__setstate__", f.loc(), f"{len(its)} recorded answers, {len(asks)} queries read, {len(puts)} answers replayed", note)
        for e in puts:
            a = e.data["args"][0]
            ctx.check("replayable", not (a[0] == "attr" and a[2] == "loss"), f"{cls.name}.__setstate__:value", e.loc, "replays the loss of the candidate instead of the posted one", note)
    for p in ctx.paths(g, Pol()):
        if p.kind == "return":
            fin = p.heap.get((SELF, "_messaging_thread"))
            ctx.check("replayable", fin is None or fin == attr("_messaging_thread"), f"{cls.name}.__getstate__", g.loc(), "the running thread is lost", path_note(p))


def weak_only(t: Term, cls: ClassInfo) -> bool:
    """self occurs in the term only behind a weak reference (or as the source of plain data)."""
    if t == SELF:
        return False
    if t[0] == "call" and t[1] in ("weakref.proxy", "weakref.ref"):
        return True
    if t[0] == "method":
        m = cls.find_method(t[2]) if t[1] == SELF else None
        return (m is not None and m.is_static) or weak_only(t[1], cls)
    if t[0] in ("attr",):
        return True
    if t[0] == "lambda" or t[0] == "closure":
        return not contains(t, SELF)
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str) and not weak_only(x, cls):
            return False
        if isinstance(x, tuple) and (not x or not isinstance(x[0], str)):
            for y in x:
                if isinstance(y, tuple) and y:
                    z = y[1] if len(y) == 2 and isinstance(y[0], str) and isinstance(y[1], tuple) and y[0] not in ("param", "not", "star", "truth", "tuple") else y
                    if isinstance(z, tuple) and z and isinstance(z[0], str) and not weak_only(z, cls):
                        return False
    return True


def check_functions(ctx: Ctx) -> None:
    rec = ctx.project.cls(RC, "RecastOptimizer")
    ctx.rule("weak-reference", "the function run by the thread never holds a strong reference to the optimizer", 2)
    ctx.rule("stop-not-swallowed", "no handler around the objective inside the loop swallows the stop exception", 2)
    ctx.rule("overrides-forward", "overrides of ask and tell either forward to the wrapper or do nothing before the thread exists", 2)
    ctx.rule("loss-never-stop", "the posted loss is never the stop message", 2)
    for c in [rec] + rec.all_subclasses():
        if c.module.name.rsplit(".", 1)[-1].startswith("test_"):
            continue
        f = c.methods.get("get_optimization_function")
        if f is not None:
            for p in ctx.paths(f, P()):
                if p.kind != "return":
                    continue
                v = p.value
                ok = weak_only(v, c)
                nested = [n for n in ast.walk(f.node) if isinstance(n, (ast.Lambda, ast.FunctionDef)) and n is not f.node]
                for n in nested:
                    if any(isinstance(x, ast.Name) and x.id == "self" for x in ast.walk(n)):
                        ok = False
                ctx.check("weak-reference", ok, f"{c.name}.get_optimization_function", f.loc(), f"returns {show(v)}", path_note(p))
        m = c.methods.get("_post_loss")
        if m is not None:
            for p in ctx.paths(m, P(opaque=CONTRACT | {"losses"})):
                if p.kind != "return":
                    continue  # nothing is posted: the error reaches the caller of tell
                cand, loss = ("param", m.params[1].arg), ("param", m.params[2].arg)
                ok = p.kind == "return" and (contains(p.value, loss) or contains(p.value, cand)) and p.value != NONE
                ctx.check("loss-never-stop", ok, f"{c.name}._post_loss", m.loc(), f"posts {show(p.value)}", path_note(p))
        if c.module.name == RC:
            continue
        for nm in ("_internal_ask_candidate", "_internal_tell_candidate"):
            m = c.methods.get(nm)
            if m is None:
                continue
            for p in ctx.paths(m, P(opaque=CONTRACT | {"warn"})):
                if p.kind != "return":
                    continue
                fwd = [e for e in p.events if is_call(e, nm)]
                if nm.endswith("tell_candidate"):
                    nothread = any(t == ("cmp", "is", attr("_messaging_thread"), NONE) and b or t == ("truth", attr("_messaging_thread")) and not b for t, b in p.conds)
                    ok = len(fwd) == 1 and fwd[0].data["args"] == tuple(("param", a.arg) for a in m.params[1:]) or (nothread and not fwd)
                else:
                    ok = len(fwd) == 1 and p.value == fwd[0].data["result"] or (not fwd and contains_call(p.value, "spawn_child"))
                ctx.check("overrides-forward", ok, f"{c.name}.{nm}", m.loc(), "the query or the answer is not forwarded", path_note(p))
        # bodies run by the thread
        for name, m in c.methods.items():
            if not m.is_static:
                continue
            scan_body(ctx, m)
    for f in ctx.project.functions(RL):
        if f.cls is None or f.cls.module.name != RL:
            scan_body(ctx, f)


def scan_body(ctx: Ctx, f: FuncInfo) -> None:
    objs = {a.arg for a in f.params if "objective" in a.arg}
    if not objs:
        return
    ctx.seen(f) if callable(getattr(ctx, "seen", None)) else None
    # nested functions which reach the objective
    nested = {n.name: n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node}
    reach = set(objs)
    changed = True
    while changed:
        changed = False
        for nm, n in nested.items():
            if nm not in reach and any(isinstance(x, ast.Name) and x.id in reach for x in ast.walk(n)):
                reach.add(nm)
                changed = True

    def uses(stmts: tp.Iterable[ast.AST]) -> bool:
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if any(isinstance(x, ast.Name) and x.id in reach or isinstance(x, ast.Attribute) and x.attr == "objective_function" for x in ast.walk(s)):
                return True
        return False

    bad = False
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try) and uses(n.body):
            for h in n.handlers:
                types = ["BaseException"] if h.type is None else [ast.unparse(x).rsplit(".", 1)[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if not ({"Exception", "BaseException", "StopOptimizerThread"} & set(types)):
                    continue
                last = h.body[-1]
                if not isinstance(last, ast.Raise) and not any(isinstance(x, ast.Raise) for x in h.body):
                    bad = True
                    ctx.bad("stop-not-swallowed", f"{f.fullname}:handler", f.loc(h), "the stop exception is swallowed and the loop goes on")
    if not bad:
        ctx.ok("stop-not-swallowed", f"{f.fullname}")
    # waits
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            txt = ast.unparse(n.func)
            if txt in ("threading.Thread", "Thread", "time.sleep", "sleep", "queue.Queue", "threading.Event", "threading.Lock"):
                site = next((q for q in ast.walk(f.node) if isinstance(q, ast.FunctionDef) and q is not f.node and any(y is n for y in ast.walk(q))), None)
                ctx.bad("released", f"{f.fullname}:{site.name if site is not None else 'body'}:{txt}", f.loc(n), "the loop waits on something else than the answer to its query: stopping does not release it")


def declare(ctx: Ctx) -> None:
    ctx.rule("thread-once", "the thread is created only when there is none, on the optimization function only", 4)
    ctx.rule("waits-only-if-message", "ask waits for a message only from a living thread, at most once", 2)
    ctx.rule("last-message-once", "once the last message was received, ask never waits for another one", 2)
    ctx.rule("errors-raised", "an error of the loop is raised to the caller of ask; only data is used as data", 4)
    ctx.rule("falls-back", "after the end of the loop ask warns, reports its error and returns a fallback candidate", 2)
    ctx.rule("data-of-message", "the candidate holds the data of the query", 2)
    ctx.rule("answer-once", "each query gets exactly one answer, by the tell of its own candidate", 6)
    ctx.rule("loss-of-query", "the answer is the loss told", 2)
    ctx.rule("replayable", "each posted answer is recorded and replayed once with the same value", 2)


def check(ctx: Ctx) -> None:
    declare(ctx)
    check_thread(ctx)
    seq, bat = ctx.project.cls(RC, "SequentialRecastOptimizer"), ctx.project.cls(RC, "BatchRecastOptimizer")
    check_ask(ctx, seq, False)
    check_ask(ctx, bat, True)
    check_tell(ctx, seq, False)
    check_tell(ctx, bat, True)
    check_replay(ctx, seq)
    ini = bat.find_method("__init__")
    for p in ctx.paths(ini, P(opaque=CONTRACT | {"__init__"})):
        if p.kind == "return":
            fin = p.heap.get((SELF, "_penalize_cheap_violations"))
            ctx.check("answer-once", fin == TRUE or any(is_call(e, "tell") for e in p.events), "BatchRecastOptimizer.__init__", ini.loc(), "points rejected by a constraint never get an answer: the batch cannot be completed", path_note(p))
    check_functions(ctx)
