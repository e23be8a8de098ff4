"""Population bookkeeping survives any order of asks and tells."""
from __future__ import annotations

from .common import *
from .p22 import classes

TECHNIQUE = "inductive invariant over path enumeration: the identifiers in the queue are the keys of the population at the start of every hook, hence at its end"
EXPLANATION = (
    "For every optimizer class holding a UidQueue and a population, every path of the ask hook and of both tell hooks is explored (helpers inlined), assuming only that the queued identifiers are the keys "
    "of the population at its start. Each identifier queued, looked up or removed must be known to be a key on that path, each key added is queued and each key removed is discarded, so that the assumption holds "
    "again at the end; UidQueue.discard must leave no occurrence, and points that are ranked must be distinct and evaluated."
)
HOOKS = ("_internal_ask_candidate", "_internal_tell_candidate", "_internal_tell_not_asked")
QUEUE = {"ask", "tell", "discard", "clear", "add"}
UT = "nevergrad.optimization.utils"


def pol() -> P:
    return P(opaque=CONTRACT | QUEUE | frozenset(["pareto_front", "num_objectives", "get_standardized_data", "set_standardized_data", "recombine", "mutate", "sample", "spawn_child", "rank", "recommend", "apply", "_loss"]), unroll=(0, 1), keep=wanted)


def wanted(c: tp.Any) -> bool:
    return isinstance(c, tuple) and c[:1] == ("cmp",) and c[1] in ("in", "is", "<")


def tail(n: tp.Any) -> str:
    return str(n).rsplit(".", 1)[-1]


def queue_attr(cls: ClassInfo) -> tp.Optional[str]:
    init = cls.find_method("__init__")
    for c in cls.mro:
        if not isinstance(c, ClassInfo) or "__init__" not in c.methods:
            continue
        for n in walk_local(c.methods["__init__"].node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call) and tail(ast.unparse(n.value.func)) == "UidQueue":
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, ast.Attribute):
                    return t.attr
    return None


def stores(cls: ClassInfo) -> tp.Set[str]:
    """dictionaries of the class in which points are stored under an identifier"""
    init = cls.find_method("__init__")
    out = set()
    for m in [init] + [cls.find_method(h) for h in HOOKS]:
        for n in walk_local(m.node) if m is not None else ():
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == "self" and ast.unparse(n.slice).endswith(".uid"):
                out.add(n.value.attr)
    return out


def all_terms(p: Path) -> tp.Iterator[tp.Tuple[tp.Any, int]]:
    for t, _ in p.conds:
        yield t, len(p.events)
    for i, e in enumerate(p.events):
        for v in e.data.values():
            if isinstance(v, tuple):
                yield v, i
    if isinstance(p.value, tuple):
        yield p.value, len(p.events)


class State:
    def __init__(self, p: Path, pop: str, queue: str) -> None:
        self.p, self.pop, self.queue = p, attr(pop), attr(queue)
        self.name = pop
        self.pops = [self.pop] + [e.data["value"] for e in p.events if e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == pop]

    def items(self, t: Term) -> tp.Optional[tp.Tuple[tp.Any, ...]]:
        return self.p.heap.get((t, "#items"))

    def keyset(self, t: tp.Any) -> bool:
        """All the elements obtained by iterating on t are keys of the population."""
        if t in self.pops:
            return True
        if not (isinstance(t, tuple) and t):
            return False
        if t[0] == "call":
            n = tail(t[1])
            if n in ("keys", "copy") and t[2] is not None:
                return self.keyset(t[2])
            if n in ("list", "tuple", "sorted", "set", "iter", "reversed", "array") and t[3]:
                return self.keyset(t[3][0])
        if t[0] in ("list", "set", "tuple") or self.items(t) is not None:
            its = self.items(t)
            if its is None:
                return False
            return all(self.key(x[1] if isinstance(x, tuple) and x[:1] == ("rep",) else x) for x in its)
        if t[0] == "slice" or t[0] == "sub" and isinstance(t[2], tuple) and t[2][:1] == ("slice",):
            return self.keyset(t[1])
        return False

    def pairs(self, t: tp.Any) -> bool:
        return isinstance(t, tuple) and t[:1] == ("call",) and (tail(t[1]) == "items" and t[2] in self.pops or tail(t[1]) in ("list", "sorted", "tuple", "iter") and bool(t[3]) and self.pairs(t[3][0]))

    def key(self, k: tp.Any, upto: tp.Optional[int] = None) -> bool:
        """k is a key of the population whenever it was on the path (its removal is checked apart)."""
        p = self.p
        if not isinstance(k, tuple):
            return False
        if k[:1] == ("call",) and tail(k[1]) == "ask" and k[2] == self.queue:
            return True
        if k[:1] in (("item",), ("key",)) and self.keyset(k[1]):
            return True
        if k[:1] == ("sub",):
            if self.keyset(k[1]):
                return True
            c = k[1]
            if k[2] == const(0) and isinstance(c, tuple):
                if c[:1] == ("call",) and tail(c[1]) in ("max", "min", "next", "choice") and c[3] and self.pairs(c[3][0]):
                    return True
                if c[:1] in (("item",), ("sub",)) and self.pairs(c[1]):
                    return True
        if k[:1] == ("call",) and tail(k[1]) in ("choice", "max", "min", "next", "str") and k[3] and (self.keyset(k[3][0]) or tail(k[1]) == "str" and self.key(k[3][0])):
            return True
        for t, b in p.conds:
            if b and isinstance(t, tuple) and t[:2] == ("cmp", "in") and t[2] == k and self.keyset(t[3]):
                return True
        for e in p.events if upto is None else p.events[:upto]:
            if e.kind == "setitem" and e.data["base"] in self.pops and e.data["idx"] == k:
                return True
        return False


def infeasible(p: Path) -> bool:
    """a sanitised loss is always smaller than infinity"""
    for t, b in p.conds:
        if not b and isinstance(t, tuple) and t[:2] == ("cmp", "<") and isinstance(t[3], tuple) and t[3][:1] in (("const",), ("call",)) and ("const", "float", "inf") == t[3] and t[2] == ("param", "loss"):
            return False
    return False


def check(ctx: Ctx) -> None:
    ctx.rule("known-keys", "every identifier looked up or removed is a key of the population on that path", 8)
    ctx.rule("queued-known", "every identifier put in the queue is a key of the population", 6)
    ctx.rule("members-queued", "a key added to the population is put in the queue, and a removed one is discarded from it", 8)
    ctx.rule("no-leftover", "discarding an identifier leaves no occurrence of it in the queue", 2)
    ctx.rule("ranked-distinct", "points that are ranked together are distinct and evaluated", 2)
    found = 0
    for cls in classes(ctx):
        q = queue_attr(cls)
        if q is None or cls.find_method(HOOKS[0]) is None:
            continue
        pops: tp.Set[str] = set()
        for p in ctx.paths(cls.find_method(HOOKS[0]), pol(), cls=cls):
            for t, _ in all_terms(p):
                for s in subterms(t):
                    if isinstance(s, tuple) and s[:1] == ("sub",) and isinstance(s[1], tuple) and s[1][:2] == ("attr", SELF) and isinstance(s[2], tuple) and s[2][:1] == ("call",) and tail(s[2][1]) == "ask" and s[2][2] == attr(q):
                        pops.add(s[1][2])
        if not pops:
            pops = stores(cls)
        if len(pops) != 1:
            raise AnalysisBroken(f"{cls.name}: no population indexed by the queue ({sorted(pops)})")
        found += 1
        check_class(ctx, cls, q, pops.pop())
    if found < 3:
        raise AnalysisBroken("fewer than 3 population-based algorithms with a queue")
    check_queue(ctx)


def check_class(ctx: Ctx, cls: ClassInfo, q: str, pop: str) -> None:
    Q = attr(q)
    done: tp.Set[str] = set()
    for h in HOOKS:
        f = cls.find_method(h)
        if f is None or f.fullname in done or f.cls is optimizer(ctx):
            continue
        done.add(f.fullname)
        C = f"{cls.name}.{h}"
        for p in ctx.paths(f, pol(), cls=cls):
            note = path_note(p)
            st = State(p, pop, q)
            # lookups
            seen: tp.Set[tp.Any] = set()
            for t, i in all_terms(p):
                for s in subterms(t):
                    if isinstance(s, tuple) and s[:1] == ("sub",) and s[1] in st.pops and s not in seen:
                        seen.add(s)
                        ctx.check("known-keys", st.key(s[2]), C, f.loc(), f"{show(s)} is looked up but the identifier may not be in the population", note)
            for i, e in enumerate(p.events):
                gone = None
                if e.kind == "delitem" and e.data["base"] in st.pops:
                    gone = e.data["idx"]
                elif is_call(e, "pop") and e.data["recv"] in st.pops and e.data["args"]:
                    gone = e.data["args"][0]
                if gone is not None:
                    lenient = is_call(e, "pop") and len(e.data["args"]) > 1
                    ctx.check("known-keys", lenient or st.key(gone, i), f"{C}:del", f.loc(e.node), f"{show(gone)} is removed but may not be a key of the population", note)
                    if p.kind == "return":
                        ok = any(is_call(x, "discard") and x.data["recv"] == Q and x.data["args"][:1] == (gone,) for x in p.events) or any(is_call(x, "clear") and x.data["recv"] == Q for x in p.events[i:])
                        back = any(x.kind == "setitem" and x.data["base"] in st.pops and x.data["idx"] == gone for x in p.events[i:])
                        ctx.check("members-queued", ok or back, f"{C}:del", f.loc(e.node), "a member is removed from the population but stays in the queue", note)
                if e.kind == "setitem" and e.data["base"] in st.pops and p.kind == "return":
                    k = e.data["idx"]
                    before = State(p, pop, q)
                    was = any(b and isinstance(t, tuple) and t[:2] == ("cmp", "in") and t[2] == k and t[3] in st.pops for t, b in p.conds) or before.key(k, i)
                    queued = any(queues(x, Q) == k for x in p.events)
                    ctx.check("members-queued", was or queued, f"{C}:add", f.loc(e.node), "a member is added to the population but never put in the queue", note)
                k = queues(e, Q)
                if k is not None:
                    removed = any((x.kind == "delitem" and x.data["base"] in st.pops and x.data["idx"] == k) for x in p.events)
                    readd = any(x.kind == "setitem" and x.data["base"] in st.pops and x.data["idx"] == k for x in p.events)
                    ctx.check("queued-known", st.key(k) and (readd or not removed), f"{C}:queue", f.loc(e.node), f"{show(k)} is put in the queue but may not be a key of the population", note)
                if e.kind == "setattr" and e.data["base"] == SELF and e.data["name"] == pop and p.kind == "return":
                    rest = p.events[i + 1 :]
                    cl = [j for j, x in enumerate(rest) if is_call(x, "clear") and x.data["recv"] == Q or x.kind == "setattr" and x.data["base"] == SELF and x.data["name"] == q]
                    before_cl = [j for j, x in enumerate(p.events[:i]) if is_call(x, "clear") and x.data["recv"] == Q]
                    loops = [x for x in rest if x.kind == "loopend" and st.keyset(x.data.get("it"))]
                    its = [x for x in rest if x.kind == "iter" and st.keyset(x.data.get("it"))]
                    told = all(any(queues(y, Q) == x.data["elem"] for y in rest) for x in its)
                    ctx.check("members-queued", bool(cl or before_cl) and bool(loops) and told, f"{C}:renew", f.loc(e.node), "the population is replaced but the queue is not rebuilt from it", note)
                if is_call(e, "rank", "_rank_method") and e.data["args"]:
                    L = e.data["args"][0]
                    d, ev = ranked(st, L)
                    ctx.check("ranked-distinct", d, f"{cls.name}:rank", f.loc(e.node), "the same point can be ranked twice (it may be both waiting and in the population, or told twice)", note)
                    ctx.check("ranked-distinct", ev, f"{cls.name}:rank-evaluated", f.loc(e.node), "a point which was not told yet can be ranked", note)


def queues(e: Event, Q: Term) -> tp.Optional[Term]:
    if is_call(e, "tell") and e.data["recv"] == Q and e.data["args"]:
        return e.data["args"][0]
    if is_call(e, "add", "append") and e.data["recv"] in (("attr", Q, "asked"), ("attr", Q, "told")) and e.data["args"]:
        return e.data["args"][0]
    return None


def ranked(st: State, L: tp.Any) -> tp.Tuple[bool, bool]:
    distinct, evaluated = False, False
    while isinstance(L, tuple) and L[:1] == ("call",) and tail(L[1]) in ("list", "tuple", "sorted") and L[3]:
        L = L[3][0]
    if isinstance(L, tuple) and L[:1] == ("call",) and tail(L[1]) == "values" and uid_dict(st, L[2]):
        distinct = True
    its = st.items(L) if isinstance(L, tuple) else None
    if its is not None:
        vals = [x[1] if isinstance(x, tuple) and x[:1] == ("rep",) else x for x in its]
        distinct = distinct or all(isinstance(v, tuple) and (v[:1] == ("val",) and uid_dict(st, v[1]) or v[:1] == ("item",) and ranked(st, v[1])[0]) for v in vals)
        evaluated = all(told(st.p, v) for v in vals)
    return distinct, evaluated


def uid_dict(st: State, d: tp.Any) -> bool:
    if d in st.pops:
        return True
    its = st.items(d)
    if its is None:
        return False
    out = []
    for x in its:
        x = x[1] if isinstance(x, tuple) and x[:1] == ("rep",) else x
        out.append(isinstance(x, tuple) and len(x) == 2 and x[0] == ("attr", x[1], "uid"))
    return all(out)


def told(p: Path, v: Term) -> bool:
    for t, b in p.conds:
        for a in ("loss", "_losses"):
            if t == ("cmp", "is", ("attr", v, a), NONE) and not b:
                return True
    return False


def check_queue(ctx: Ctx) -> None:
    cls = ctx.project.cls(UT, "UidQueue")
    f = cls.find_method("discard")
    if f is None:
        raise AnalysisBroken("UidQueue.discard vanished")
    u = ("param", f.params[1].arg)
    unique = set()
    init = cls.find_method("__init__")
    for n in walk_local(init.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, ast.Attribute) and any(w in ast.unparse(n.value) for w in ("OrderedSet", "set(", "dict(", "{}")):
                unique.add(t.attr)
    for p in ctx.paths(f, P(opaque=frozenset(["discard", "add"]), unroll=(0, 1, 2), keep=lambda c: True), cls=cls):
        if p.kind != "return":
            continue
        for store in ("asked", "told"):
            S = attr(store)
            last = [b for t, b in p.conds if t == ("cmp", "in", u, S)]
            absent = bool(last) and not last[-1]
            rem = [e for e in p.events if is_call(e, "discard", "remove", "pop", "__delitem__") and e.data["recv"] == S and e.data["args"][:1] == (u,) or e.kind == "delitem" and e.data["base"] in (S, ("attr", S, "_data")) and e.data["idx"] == u]
            new = [e.data["value"] for e in p.events if e.kind == "setattr" and e.data["name"] == store]
            counted = [e for e in p.events if e.kind == "loopend" and isinstance(e.data.get("it"), tuple) and any(isinstance(x, tuple) and x[:1] == ("call",) and tail(x[1]) == "count" and x[2] == S and x[3] == (u,) for x in subterms(e.data["it"]))]
            n_iter = len([e for e in p.events if e.kind == "iter" and counted and e.data.get("it") == counted[0].data["it"]])
            if counted and len(rem) >= n_iter:
                absent = True
            filtered = bool(new) and excludes(p, new[-1], u)
            ctx.check("no-leftover", absent or (store in unique and bool(rem)) or filtered, f"UidQueue.discard:{store}", f.loc(), f"an identifier asked several times can remain in {store} after being discarded", path_note(p))


def excludes(p: Path, new: Term, u: Term) -> bool:
    while isinstance(new, tuple) and new[:1] == ("call",) and new[3]:
        new = new[3][0]
    its = p.heap.get((new, "#items"))
    if its is None:
        return False
    for x in its:
        x = x[1] if isinstance(x, tuple) and x[:1] == ("rep",) else x
        if not any(t in (("cmp", "==", x, u), ("cmp", "==", u, x)) and not b for t, b in p.conds):
            return False
    return True
