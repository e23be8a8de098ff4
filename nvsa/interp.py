"""Path-sensitive, copy-propagating path enumeration over the syntax tree of the analysed package.

Nothing is executed and nothing is handed to a solver: each function is walked statement by statement, forking at
conditions, and every path is recorded as a list of events (calls, attribute writes, raises, yields) over *terms*, the
canonical description of where a value comes from.  Names of locals, temporaries, order of independent statements,
extracted helpers (inlined), loop forms, negated conditions and flipped comparisons all disappear in the terms, so that
the rules judge what a path does rather than how it is written.
"""
from __future__ import annotations

import ast
import builtins
import typing as tp

from .project import AnalysisBroken, ClassInfo, External, FuncInfo, Module, ModVar, Project

Term = tp.Tuple[tp.Any, ...]
NONE: Term = ("const", "NoneType", None)
TRUE: Term = ("const", "bool", True)
FALSE: Term = ("const", "bool", False)

BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitXor: "^", ast.BitAnd: "&", ast.MatMult: "@",
}
PURE_EXT = (
    "builtins.len", "builtins.float", "builtins.int", "builtins.bool", "builtins.str", "builtins.repr", "builtins.abs", "builtins.round",
    "builtins.range", "builtins.zip", "builtins.enumerate", "builtins.sorted", "builtins.reversed", "builtins.callable", "builtins.hasattr",
    "builtins.getattr", "builtins.isinstance", "builtins.issubclass", "builtins.type", "builtins.max", "builtins.min", "builtins.sum",
    "builtins.any", "builtins.all", "builtins.id", "builtins.hash", "builtins.vars", "builtins.print", "builtins.super", "builtins.slice",
    "builtins.format", "builtins.tuple", "builtins.frozenset", "builtins.iter", "functools.partial", "operator.", "math.",
    "warnings.warn", "pathlib.Path", "os.path.", "itertools.",
)
IMPURE_NP = ("numpy.random", "numpy.save", "numpy.load", "numpy.fill", "numpy.put", "numpy.copyto")
FRESH = ("builtins.list", "builtins.set", "builtins.dict", "collections.deque", "collections.OrderedDict", "collections.defaultdict", "builtins.object")

# classes of builtin values, for isinstance decisions (name -> names it is an instance of)
INST = {
    "float": {"float", "Real", "Number", "Complex"}, "int": {"int", "Real", "Number", "Complex", "Integral", "Rational"},
    "bool": {"bool", "int", "Real", "Number", "Complex", "Integral", "Rational"}, "str": {"str"}, "bytes": {"bytes"}, "tuple": {"tuple"}, "list": {"list"},
    "dict": {"dict"}, "set": {"set"}, "ndarray": {"ndarray"}, "NoneType": {"NoneType"}, "deque": {"deque"},
}


def const(v: tp.Any) -> Term:
    return ("const", type(v).__name__, v)


def is_const(t: Term) -> bool:
    return t[0] == "const"


def subterms(t: tp.Any) -> tp.Iterator[Term]:
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t: tp.Any, sub: Term) -> bool:
    return any(x == sub for x in subterms(t))


def show(t: tp.Any) -> str:
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == "const":
        return repr(t[2])
    if k == "param":
        return str(t[1])
    if k == "attr":
        return f"{show(t[1])}.{t[2]}"
    if k == "call":
        recv = f"{show(t[2])}." if t[2] is not None else ""
        return f"{recv}{t[1].rsplit('.', 1)[-1] if recv else t[1]}({', '.join([show(a) for a in t[3]] + [f'{n}={show(v)}' for n, v in t[4]])})"
    if k == "sub":
        return f"{show(t[1])}[{show(t[2])}]"
    if k == "bin":
        return f"({show(t[2])} {t[1]} {show(t[3])})"
    if k == "cmp":
        return f"({show(t[2])} {t[1]} {show(t[3])})"
    if k == "un":
        return f"{t[1]}{show(t[2])}"
    if k == "item":
        return f"item{t[2]}({show(t[1])})"
    if k in ("new", "list", "dict", "set", "comp"):
        return f"{k}:{t[1]}"
    if k in ("ext", "func", "class", "modvar", "module"):
        return str(t[1])
    if k == "tuple":
        return "(" + ", ".join(show(x) for x in t[1]) + ")"
    if k == "inst":
        return f"isinstance({show(t[1])}, {t[2]})"
    if k == "truth":
        return show(t[1])
    return str(k) + "(" + ", ".join(show(x) for x in t[1:]) + ")"


class Event:
    __slots__ = ("kind", "node", "func", "data", "conds", "stack")

    def __init__(self, kind: str, node: tp.Any, func: FuncInfo, data: tp.Dict[str, tp.Any], conds: tp.Any, stack: tp.Tuple[str, ...]) -> None:
        self.kind, self.node, self.func, self.data, self.conds, self.stack = kind, node, func, data, conds, stack

    def __getattr__(self, name: str) -> tp.Any:
        try:
            return self.data[name]
        except KeyError:
            raise AttributeError(name)

    @property
    def loc(self) -> str:
        return self.func.loc(self.node)

    def cond_list(self) -> tp.List[tp.Tuple[Term, bool]]:
        out = []
        c = self.conds
        while c is not None:
            out.append(c[1])
            c = c[0]
        return out[::-1]

    def __repr__(self) -> str:
        d = self.data
        if self.kind == "call":
            s = f"call {d['name']} recv={show(d['recv'])} args=({', '.join(show(a) for a in d['args'])}) kw={{{', '.join(f'{k}={show(v)}' for k, v in d['kwargs'])}}}"
            if d.get("raised"):
                s += " RAISES"
        elif self.kind in ("setattr", "delattr"):
            s = f"{self.kind} {show(d['base'])}.{d['name']}" + (f" = {show(d['value'])}" if "value" in d else "")
        elif self.kind in ("setitem", "delitem"):
            s = f"{self.kind} {show(d['base'])}[{show(d['idx'])}]" + (f" = {show(d['value'])}" if "value" in d else "")
        else:
            s = f"{self.kind} " + " ".join(f"{k}={show(v)}" for k, v in d.items())
        return f"<{s} @{self.func.qualname}:{getattr(self.node, 'lineno', '?')}>"


class State:
    __slots__ = ("frames", "heap", "assume", "events", "conds", "n", "stack")

    def __init__(self) -> None:
        self.frames: tp.Dict[int, tp.Dict[str, Term]] = {}
        self.heap: tp.Dict[tp.Tuple[Term, str], Term] = {}
        self.assume: tp.Dict[Term, bool] = {}
        self.events: tp.Any = None
        self.conds: tp.Any = None
        self.n = 0
        self.stack: tp.Tuple[tp.Tuple[FuncInfo, int, tp.Optional[ClassInfo]], ...] = ()

    def fork(self) -> "State":
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.assume = dict(self.assume)
        s.events, s.conds, s.n, s.stack = self.events, self.conds, self.n, self.stack
        return s

    def fresh(self) -> int:
        self.n += 1
        return self.n

    def event_list(self) -> tp.List[Event]:
        out = []
        e = self.events
        while e is not None:
            out.append(e[1])
            e = e[0]
        return out[::-1]


class Outcome:
    __slots__ = ("kind", "value", "node")

    def __init__(self, kind: str, value: tp.Any = None, node: tp.Any = None) -> None:
        self.kind, self.value, self.node = kind, value, node

    def key(self) -> tp.Any:
        return (self.kind, self.value)


NEXT = Outcome("next")


class Path:
    def __init__(self, state: State, outcome: Outcome) -> None:
        self.state, self.outcome, self.kind, self.value = state, outcome, outcome.kind, outcome.value
        self.events = state.event_list()
        self.heap = state.heap

    @property
    def conds(self) -> tp.List[tp.Tuple[Term, bool]]:
        out = []
        c = self.state.conds
        while c is not None:
            out.append(c[1])
            c = c[0]
        return out[::-1]

    def calls(self, name: tp.Optional[str] = None) -> tp.List[Event]:
        return [e for e in self.events if e.kind == "call" and (name is None or e.data["name"].rsplit(".", 1)[-1] == name)]

    def describe(self) -> str:
        lines = [f"exit: {self.kind} {show(self.value) if self.value is not None else ''}"]
        lines += ["  when " + ("" if b else "not ") + show(t) for t, b in self.conds]
        lines += [f"  {e!r}" for e in self.events]
        return "\n".join(lines)


class Policy:
    """What a rule wants to see; override in rules."""

    max_depth = 5
    unroll: tp.Tuple[int, ...] = (0, 1, 2)  # numbers of iterations explored for loops over unknown iterables
    while_unroll = 2
    max_paths = 40000
    max_steps = 3000000  # statements interpreted
    assert_raises = False
    opaque: tp.FrozenSet[str] = frozenset()  # method/function names kept as single call events
    inline_classes: tp.FrozenSet[str] = frozenset()  # classes whose __init__ is inlined
    stable_attrs: tp.FrozenSet[str] = frozenset()  # attributes which no opaque call modifies
    ignore: tp.FrozenSet[str] = frozenset(["builtins.print"])  # calls not recorded
    yield_raises = False
    self_exact = True
    bool_calls: tp.FrozenSet[str] = frozenset()  # methods which return a bool whatever the receiver
    comp_exact = False  # comprehensions, any() and all() are explored element by element, as loops are

    def inline(self, func: FuncInfo, interp: "Interp", state: State) -> bool:
        return func.name not in self.opaque

    def raises(self, event: Event) -> bool:
        return False

    def pure(self, name: str) -> bool:
        return False

    def keep(self, cond: Term) -> bool:
        """Conditions that a rule reads: states which differ on them are not joined."""
        return False


class _Raise(Exception):
    pass


class Interp:
    def __init__(self, project: Project, policy: tp.Optional[Policy] = None, cls: tp.Optional[ClassInfo] = None) -> None:
        self.p = project
        self.policy = policy if policy is not None else Policy()
        self.cls = cls
        self.closures: tp.Dict[int, tp.Tuple[FuncInfo, int, tp.Dict[str, Term]]] = {}
        self.types: tp.Dict[Term, tp.Any] = {}
        self.npaths = 0
        self.inlined: tp.Set[str] = set()
        self.calls_seen = 0
        self.stmts_seen: tp.Set[int] = set()
        self._fid = 0

    # ------------------------------------------------------------------ entry
    def run(self, func: FuncInfo, cls: tp.Optional[ClassInfo] = None, args: tp.Optional[tp.Dict[str, Term]] = None, state: tp.Optional[State] = None) -> tp.List[Path]:
        """All paths of a function; parameters are ("param", name)."""
        cls = cls if cls is not None else (self.cls if func.cls is not None else None)
        cls = cls if cls is not None else func.cls
        st = state.fork() if state is not None else State()
        env: tp.Dict[str, Term] = {}
        a = func.node.args
        for arg in func.params + [x for x in (a.vararg, a.kwarg) if x is not None]:
            t: Term = ("param", arg.arg)
            if args and arg.arg in args:
                t = args[arg.arg]
            env[arg.arg] = t
            typ = self.p.type_from_annotation(arg.annotation, func.module, func, cls) if arg not in (a.vararg, a.kwarg) else None
            if typ is not None:
                self.types.setdefault(t, typ)
        if func.cls is not None and func.params and not func.is_static:
            t = env[func.params[0].arg]
            self.types[t] = ("type", cls) if func.is_classmethod or func.name in ("__new__", "__init_subclass__") else cls
        fid = self._new_fid()
        st.frames[fid] = env
        st.stack = ((func, fid, cls),)
        if func.parent is not None:  # free variables of a nested function are parameters of the analysis
            pass
        out = []
        for s, o in self._body(func, st):
            out.append(Path(s, o))
        return out

    def _new_fid(self) -> int:
        self._fid += 1
        return self._fid

    def _body(self, func: FuncInfo, st: State) -> tp.List[tp.Tuple[State, Outcome]]:
        if isinstance(func.node, ast.Lambda):
            res = []
            for s, v, o in self.ev(func.node.body, st):
                res.append((s, o if o is not None else Outcome("return", v, func.node)))
            return res
        res = []
        for s, o in self.block(func.node.body, st):
            if o.kind == "next":
                o = Outcome("return", NONE, func.node)
            res.append((s, o))
        return res

    # ------------------------------------------------------------------ events / state helpers
    def emit(self, st: State, kind: str, node: tp.Any, **data: tp.Any) -> Event:
        f = st.stack[-1][0]
        e = Event(kind, node, f, data, st.conds, tuple(x[0].qualname for x in st.stack))
        st.events = (st.events, e)
        return e

    def budget(self, n: int) -> None:
        if n > self.policy.max_paths:
            raise AnalysisBroken(f"path explosion (> {self.policy.max_paths} simultaneous paths)")

    def havoc(self, st: State) -> None:
        stable = self.policy.stable_attrs
        for t in list(st.assume):
            if self.volatile(t, stable):
                del st.assume[t]

    def volatile(self, t: Term, stable: tp.FrozenSet[str]) -> bool:
        core = t[1] if t[0] in ("truth", "inst") else t
        if t[0] == "inst":
            return False
        if t[0] == "cmp" and t[1] == "is" and not any(x[0] in ("attr", "sub") and not (x[0] == "attr" and x[2] in stable) for x in subterms(t)):
            return False
        if t[0] == "truth" and core[0] in ("const", "new", "cmp", "inst"):
            return False
        if t[0] == "truth" and core[0] == "call" and core[1].rsplit(".", 1)[-1] in self.policy.bool_calls:
            return False
        if t[0] == "truth" and core[0] in ("param", "call", "item"):
            typ = self.type_of(core)
            if isinstance(typ, External) and typ.dotted.rsplit(".", 1)[-1] in ("bool", "int", "float", "str"):
                return False
        return any((x[0] == "attr" and x[2] not in stable) or x[0] in ("sub",) or (x[0] == "call" and x[1] == "builtins.len") or (x[0] == "truth") for x in subterms(t))

    # ------------------------------------------------------------------ types
    def type_of(self, t: Term) -> tp.Any:
        if t in self.types:
            return self.types[t]
        k = t[0]
        out: tp.Any = None
        if k == "const":
            out = External("builtins." + t[1])
        elif k == "attr":
            b = self.type_of(t[1])
            if isinstance(b, ClassInfo):
                out = self.p.attr_type(b, t[2])
        elif k == "new":
            out = self._class_named(t[1])
        elif k == "item":
            b = self.type_of(t[1])
            if isinstance(b, tuple) and b[0] == "list":
                out = b[1]
        elif k == "sub":
            b = self.type_of(t[1])
            if isinstance(b, tuple) and b[0] in ("list", "dict"):
                out = b[1]
            elif isinstance(b, tuple) and b[0] == "tuple" and is_const(t[2]) and isinstance(t[2][2], int) and t[2][2] < len(b[1]):
                out = b[1][t[2][2]]
        elif k == "call":
            n = t[1]
            if n in ("builtins.float", "builtins.int", "builtins.bool", "builtins.str", "builtins.len"):
                out = External("builtins.int" if n == "builtins.len" else n)
            elif n in ("copy.copy", "copy.deepcopy") and t[3]:
                out = self.type_of(t[3][0])
            elif n in ("numpy.asarray", "numpy.array", "numpy.zeros", "numpy.ones"):
                out = External("numpy.ndarray")
            elif n.rsplit(".", 1)[-1] in ("ravel", "flatten", "astype", "reshape") and t[2] is not None:
                b = self.type_of(t[2])
                if isinstance(b, External) and b.dotted == "numpy.ndarray":
                    out = b
        elif k == "bin" and t[1] in ("+", "-", "*", "/", "**"):
            l, r = (getattr(self.type_of(z), "dotted", None) for z in t[2:4])
            nums = ("builtins.float", "builtins.int")
            if l in nums and r in nums and "builtins.float" in (l, r):
                out = External("builtins.float")
        elif k in ("list", "set", "dict"):
            out = External("builtins." + k)
        elif k == "tuple":
            out = External("builtins.tuple")
        elif k in ("fstr",):
            out = External("builtins.str")
        elif k == "class":
            c = self._class_named(t[1])
            out = ("type", c) if c is not None else None
        elif k == "val":
            b = self.type_of(t[1])
            if isinstance(b, tuple) and b[0] == "dict":
                out = b[1]
        elif k == "modvar":
            mod, name = t[1].rsplit(":", 1)
            m = self.p.modules.get(mod)
            ent = m.resolve(name) if m is not None else None
            if isinstance(ent, ModVar):
                for e in ent.exprs:
                    out = self.p._modvar_type(ent, e, 0)
                    if out is not None:
                        break
        self.types[t] = out
        return out

    def _class_named(self, full: str) -> tp.Optional[ClassInfo]:
        idx = getattr(self.p, "_class_index", None)
        if idx is None:
            idx = {c.fullname: c for c in self.p.classes()}
            self.p._class_index = idx  # type: ignore
        return idx.get(full)

    def _func_named(self, full: str) -> tp.Optional[FuncInfo]:
        idx = getattr(self.p, "_func_index", None)
        if idx is None:
            idx = {f.fullname: f for m in self.p.modules.values() for f in m.all_functions if not isinstance(f.node, ast.Lambda)}
            self.p._func_index = idx  # type: ignore
        return idx.get(full)

    def entity_term(self, ent: tp.Any) -> Term:
        if isinstance(ent, FuncInfo):
            return ("func", ent.fullname)
        if isinstance(ent, ClassInfo):
            return ("class", ent.fullname)
        if isinstance(ent, External):
            if ent.dotted == "numpy.inf":
                return const(float("inf"))
            return ("ext", ent.dotted)
        if isinstance(ent, Module):
            return ("module", ent.name)
        if isinstance(ent, ModVar):
            return ("modvar", f"{ent.module.name}:{ent.name}")
        return ("unknown", repr(ent))

    # ------------------------------------------------------------------ conditions
    def decide(self, t: Term, st: State) -> tp.Optional[bool]:
        """Truth of a condition term, if known."""
        k = t[0]
        if t in st.assume:
            return st.assume[t]
        if k == "truth":
            x = t[1]
            if x[0] == "const":
                return bool(x[2])
            if x[0] == "tuple":
                return bool(x[1])
            if x[0] in ("list", "dict", "set"):
                items = st.heap.get((x, "#items"))
                if items is not None and (x, "#open") not in st.heap:
                    return bool(items)
                return None
            if x[0] in ("func", "class", "closure", "module", "method"):
                return True
            n = ("cmp", "is", x, NONE)
            if st.assume.get(n) is True:
                return False
            for y, b in st.assume.items():
                if b and y[0] == "cmp" and y[1] == "==" and x in (y[2], y[3]):
                    o = y[3] if y[2] == x else y[2]
                    if is_const(o):
                        return bool(o[2])
            if x[0] == "new":
                c = self.type_of(x)
                if isinstance(c, ClassInfo) and not c.external_bases and c.find_method("__len__") is None and c.find_method("__bool__") is None:
                    return True
            return None
        if k == "cmp":
            op, l, r = t[1], t[2], t[3]
            if is_const(l) and is_const(r):
                try:
                    if op == "is":
                        return bool(l[2] is r[2] or (l[1] == r[1] and l[2] == r[2]))
                    return {"==": lambda a, b: a == b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, "in": lambda a, b: a in b}[op](l[2], r[2])
                except Exception:
                    return None
            if op in ("is", "=="):
                if l == r and not (op == "==" and l[0] == "const" and l[2] != l[2]):
                    return True
                for a, b in ((l, r), (r, l)):
                    if b == NONE:
                        if a[0] in ("new", "tuple", "list", "dict", "set", "func", "class", "closure", "bin", "fstr", "comp", "module", "method"):
                            return False
                        ty = self.type_of(a) if a[0] == "call" else None
                        if isinstance(ty, External) and ty.dotted.rsplit(".", 1)[-1] in ("float", "int", "str", "bool", "ndarray"):
                            return False
                        if st.assume.get(("truth", a)) is True:
                            return False
                        if any(v and y[0] == "inst" and y[1] == a for y, v in st.assume.items()):
                            return False
                if op == "is" and l[0] in ("new", "list", "dict", "set") and r[0] in ("new", "list", "dict", "set", "const"):
                    return False
                for y, v in st.assume.items():
                    if v and y[0] == "cmp" and y[1] in ("==", "is") and is_const(r) and y[2] == l and is_const(y[3]) and y[3] != r:
                        return False
            if op in ("<", "<="):
                if st.assume.get(("cmp", "<", l, r)) is True:
                    return True
                if st.assume.get(("cmp", "<", r, l)) is True:
                    return False
                if op == "<" and st.assume.get(("cmp", "<=", r, l)) is True:
                    return False
                if op == "<" and l == r:
                    return False
            if op == "in" and r[0] in ("list", "tuple", "set", "dict"):
                items = r[1] if r[0] == "tuple" else st.heap.get((r, "#items"))
                if items is not None and (r, "#open") not in st.heap:
                    keys = [i[0] for i in items] if r[0] == "dict" else list(items)
                    if is_const(l) and all(is_const(x) for x in keys):
                        return any(x[2] == l[2] for x in keys)
                    if not keys:
                        return False
            return None
        if k == "inst":
            x, name = t[1], t[2]
            ty = self.type_of(x)
            if x[0] == "const" or (isinstance(ty, External) and x[0] in ("call", "bin", "list", "dict", "set", "tuple", "fstr")):
                short = ty.dotted.rsplit(".", 1)[-1]
                if short in INST:
                    return name.rsplit(".", 1)[-1].rsplit(":", 1)[-1] in INST[short]
            if x[0] == "new" and isinstance(ty, ClassInfo):
                c = self._class_named(name)
                if c is not None:
                    return ty.is_subclass_of(c)
                if not ty.external_bases:
                    return False
            if st.assume.get(("cmp", "is", x, NONE)) is True:
                return False
            short = name.rsplit(".", 1)[-1].rsplit(":", 1)[-1]
            for y, v in st.assume.items():
                if y[0] == "inst" and y[1] == x:
                    o = y[2].rsplit(".", 1)[-1].rsplit(":", 1)[-1]
                    if v and o in INST and short in INST[o]:
                        return True
                    if v and o in INST and short in INST and short not in INST[o] and o not in INST[short]:
                        return False
                    if v and ((o in INST) != (short in INST)) and (self._class_named(name) or self._class_named(y[2])):
                        return False
                    if not v and short in INST and o in INST[short]:
                        return False
                    c1, c2 = self._class_named(y[2]), self._class_named(name)
                    if c1 is not None and c2 is not None:
                        if v and c1.is_subclass_of(c2):
                            return True
                        if not v and c2.is_subclass_of(c1):
                            return False
            return None
        return None

    def split(self, t: Term, st: State) -> tp.List[tp.Tuple[State, bool]]:
        """Forks on a condition term."""
        neg = False
        while t[0] == "not":
            t, neg = t[1], not neg
        if t[0] not in ("cmp", "inst"):
            t = self._truth(t)
            while t[0] == "not":
                t, neg = t[1], not neg
        known = self.decide(t, st)
        if known is not None:
            return [(st, known != neg)]
        out = []
        s2 = st.fork()
        for s, b in ((st, True), (s2, False)):
            s.assume[t] = b
            s.conds = (s.conds, (t, b))
            out.append((s, b != neg))
        return out

    def _truth(self, t: Term) -> Term:
        if t[0] in ("cmp", "inst", "truth"):
            return t
        if t[0] == "call" and t[1] == "builtins.len" and len(t[3]) == 1:
            return ("truth", t[3][0])
        if t[0] == "call" and t[1] == "builtins.bool" and len(t[3]) == 1:
            return self._truth(t[3][0])
        return ("truth", t)

    def cond(self, expr: ast.expr, st: State) -> tp.List[tp.Tuple[State, tp.Optional[bool], tp.Optional[Outcome]]]:
        """(state, truth, raise outcome)"""
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.Not):
            return [(s, (None if b is None else not b), o) for s, b, o in self.cond(expr.operand, st)]
        if isinstance(expr, ast.BoolOp):
            isand = isinstance(expr.op, ast.And)
            out: tp.List[tp.Any] = []
            live = [st]
            for i, v in enumerate(expr.values):
                nxt = []
                for s in live:
                    for s2, b, o in self.cond(v, s):
                        if o is not None:
                            out.append((s2, None, o))
                        elif b == (not isand):
                            out.append((s2, b, None))
                        elif i == len(expr.values) - 1:
                            out.append((s2, b, None))
                        else:
                            nxt.append(s2)
                live = nxt
            return out
        if isinstance(expr, ast.IfExp):
            out = []
            for s, b, o in self.cond(expr.test, st):
                if o is not None:
                    out.append((s, None, o))
                else:
                    out += self.cond(expr.body if b else expr.orelse, s)
            return out
        if isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id in ("all", "any") and len(expr.args) == 1 and isinstance(expr.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self._quantifier(expr, st)
        out = []
        for s, v, o in self.ev(expr, st):
            if o is not None:
                out.append((s, None, o))
                continue
            for s2, b in self.split(v, s):
                out.append((s2, b, None))
        return out

    def _quantifier(self, expr: ast.Call, st: State) -> tp.List[tp.Any]:
        isall = expr.func.id == "all"  # type: ignore
        gen: tp.Any = expr.args[0]
        out: tp.List[tp.Any] = []
        if self.policy.comp_exact:

            def body(s: State, acc: tp.Any) -> tp.List[tp.Any]:
                return [(s2, (b != isall) if o is None else None, b != isall, o) for s2, b, o in self.cond(gen.elt, s)]

            for s, acc, stop, o in self._comp_unrolled(gen.generators, 0, st, False, body):
                out.append((s, None, o) if o is not None else (s, isall != stop, None))
            return out
        for s, kind, o in self._comp_iter(gen.generators, 0, st):
            if o is not None:
                out.append((s, None, o))
            elif kind == "empty":
                out.append((s, isall, None))
            else:
                out += self.cond(gen.elt, s)
        return out

    def _count(self, gen: tp.Any, st: State) -> tp.List[tp.Any]:
        """Number of elements for which a comparison holds."""

        def body(s: State, acc: tp.Any) -> tp.List[tp.Any]:
            return [(s2, acc + (1 if b and o is None else 0), False, o) for s2, b, o in self.cond(gen.elt, s)]

        return [(s, const(acc) if o is None else NONE, o) for s, acc, _, o in self._comp_unrolled(gen.generators, 0, st, 0, body)]

    # ------------------------------------------------------------------ comprehensions
    def _comp_iter(self, gens: tp.List[ast.comprehension], i: int, st: State) -> tp.List[tp.Tuple[State, str, tp.Optional[Outcome]]]:
        """Binds the loop variables to a representative element; filters are assumed to hold ('one') or not ('empty')."""
        if i == len(gens):
            return [(st, "one", None)]
        g = gens[i]
        out: tp.List[tp.Any] = []
        for s, it, o in self.ev(g.iter, st):
            if o is not None:
                out.append((s, "", o))
                continue
            elem = self.element(it, s, 0)
            known = self.known_items(it, s)
            if known is not None and not known:
                out.append((s, "empty", None))
                continue
            if known is not None and len(known) >= 1:
                elem = known[0] if len(set(known)) == 1 else ("item", it, 0)
            for s2 in self.bind(g.target, elem, s, g.iter):
                live = [(s2, True, None)]
                for c in g.ifs:
                    nxt = []
                    for s3, ok, o3 in live:
                        if not ok or o3 is not None:
                            nxt.append((s3, ok, o3))
                        else:
                            nxt += self.cond(c, s3)  # type: ignore
                    live = nxt  # type: ignore
                for s3, ok, o3 in live:
                    if o3 is not None:
                        out.append((s3, "", o3))
                    elif not ok:
                        out.append((s3, "empty", None))
                    else:
                        out += self._comp_iter(gens, i + 1, s3)
        return out

    def _comp_unrolled(self, gens: tp.List[ast.comprehension], i: int, st: State, acc: tp.Any, body: tp.Any) -> tp.List[tp.Any]:
        """Explores the iterations as for a loop: (state, accumulator, stopped, raise-outcome)."""
        if i == len(gens):
            return body(st, acc)
        g = gens[i]
        out: tp.List[tp.Any] = []
        for s, it, o in self.ev(g.iter, st):
            if o is not None:
                out.append((s, acc, False, o))
                continue
            known = self.known_items(it, s)
            exact = known is not None and len(known) <= 6
            maxk = len(known) if exact else max(self.policy.unroll)  # type: ignore
            live = [(s, acc)]
            lid = s.fresh()
            for k in range(maxk + 1):
                exits = (k == maxk) if exact else (k in self.policy.unroll) and not (k == 0 and self.nonempty(it, s))
                if exits:
                    for s2, a2 in live:
                        s3 = s2 if k == maxk else s2.fork()
                        self.emit(s3, "loopend", g.iter, it=it, count=k, lid=lid, exact=exact)
                        out.append((s3, a2, False, None))
                if k == maxk:
                    break
                nxt: tp.List[tp.Any] = []
                for s2, a2 in live:
                    elem = known[k] if exact else self.element(it, s2, k)  # type: ignore
                    self.emit(s2, "iter", g.iter, it=it, k=k, elem=elem, lid=lid)
                    for s3 in self.bind(g.target, elem, s2, g.iter):
                        passing = [(s3, True, None)]
                        for c in g.ifs:
                            new: tp.List[tp.Any] = []
                            for s4, ok, o4 in passing:
                                new += self.cond(c, s4) if ok and o4 is None else [(s4, ok, o4)]  # type: ignore
                            passing = new
                        for s4, ok, o4 in passing:
                            if o4 is not None:
                                out.append((s4, a2, False, o4))
                            elif not ok:
                                nxt.append((s4, a2))
                            else:
                                for s5, a5, stop, o5 in self._comp_unrolled(gens, i + 1, s4, a2, body):
                                    if o5 is not None or stop:
                                        out.append((s5, a5, stop, o5))
                                    else:
                                        nxt.append((s5, a5))
                live = nxt
                self.budget(len(live) + len(out))
        return out

    def known_items(self, it: Term, st: State) -> tp.Optional[tp.Tuple[Term, ...]]:
        if it[0] == "tuple":
            return tuple(it[1]) if not any(x[0] == "star" for x in it[1]) else None
        if it[0] in ("list", "set") and (it, "#items") in st.heap and (it, "#open") not in st.heap:
            items = st.heap[(it, "#items")]
            return None if any(x[0] in ("star", "rep") for x in items) else tuple(items)
        if it[0] == "dict" and (it, "#items") in st.heap and (it, "#open") not in st.heap:
            return tuple(k for k, _ in st.heap[(it, "#items")])
        if it[0] == "call" and it[1] in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed", "builtins.iter") and it[3]:
            k = self.known_items(it[3][0], st)
            return k if k is None or it[1] != "builtins.reversed" else k[::-1]
        if it[0] == "call" and it[1] == "builtins.enumerate" and it[3]:
            k = self.known_items(it[3][0], st)
            return None if k is None else tuple(("tuple", (const(i), x)) for i, x in enumerate(k))
        if it[0] == "call" and it[1] == "builtins.zip":
            ks = [self.known_items(x, st) for x in it[3]]
            if ks and all(k is not None for k in ks):
                return tuple(("tuple", tuple(z)) for z in zip(*ks))  # type: ignore
        if it[0] == "call" and it[1] == "builtins.range" and len(it[3]) == 1 and is_const(it[3][0]) and isinstance(it[3][0][2], int) and it[3][0][2] <= 6:
            return tuple(const(i) for i in range(it[3][0][2]))
        return None

    def element(self, it: Term, st: State, k: int) -> Term:
        """k-th explored element of an iterable term."""
        if it[0] in ("list", "set") and (it, "#items") in st.heap:
            reps = [x for x in st.heap[(it, "#items")] if x[0] == "rep"]
            if reps and len(st.heap[(it, "#items")]) == 1:
                return reps[0][1]
        if it[0] == "call":
            n = it[1]
            if n in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted", "builtins.reversed", "builtins.set", "collections.deque") and it[3]:
                return self.element(it[3][0], st, k)
            if n == "builtins.enumerate" and it[3]:
                return ("tuple", (("idx", it[3][0], k), self.element(it[3][0], st, k)))
            if n == "builtins.zip":
                return ("tuple", tuple(self.element(x, st, k) for x in it[3]))
            short = n.rsplit(".", 1)[-1]
            if it[2] is not None and short == "items" and not it[3]:
                return ("tuple", (("key", it[2], k), ("val", it[2], k)))
            if it[2] is not None and short == "values" and not it[3]:
                return ("val", it[2], k)
            if it[2] is not None and short == "keys" and not it[3]:
                return ("key", it[2], k)
        return ("item", it, k)

    # ------------------------------------------------------------------ expressions
    # each returns a list of (state, term, raise-outcome or None)
    def ev(self, e: ast.expr, st: State) -> tp.List[tp.Tuple[State, Term, tp.Optional[Outcome]]]:
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            return [(st, ("expr", type(e).__name__, getattr(e, "lineno", 0)), None)]
        return m(e, st)

    def ev_many(self, exprs: tp.Sequence[ast.expr], st: State) -> tp.List[tp.Tuple[State, tp.List[Term], tp.Optional[Outcome]]]:
        out: tp.List[tp.Tuple[State, tp.List[Term], tp.Optional[Outcome]]] = [(st, [], None)]
        for e in exprs:
            nxt = []
            for s, vals, o in out:
                if o is not None:
                    nxt.append((s, vals, o))
                    continue
                for s2, v, o2 in self.ev(e, s):
                    nxt.append((s2, vals + [v], o2))
            out = nxt
        return out

    def ev_Constant(self, e: ast.Constant, st: State) -> tp.Any:
        v = e.value
        try:
            hash(v)
        except TypeError:
            v = repr(v)
        return [(st, const(v), None)]

    def ev_Name(self, e: ast.Name, st: State) -> tp.Any:
        func, fid, _ = st.stack[-1]
        t = self.lookup(e.id, st)
        if t is not None:
            return [(st, t, None)]
        ent = self.p.resolve_expr(e, func.module, func)
        if isinstance(ent, FuncInfo) and ent.parent is not None:
            return [(st, self._closure(ent, st), None)]
        if ent is None:
            return [(st, ("free", e.id), None)]
        return [(st, self.entity_term(ent), None)]

    def lookup(self, name: str, st: State) -> tp.Optional[Term]:
        fid: tp.Optional[int] = st.stack[-1][1]
        while fid is not None:
            env = st.frames.get(fid, {})
            if name in env:
                return env[name]
            fid = env.get("#parent")  # type: ignore
        return None

    def _closure(self, f: FuncInfo, st: State) -> Term:
        fid = st.stack[-1][1]
        a = f.node.args
        defaults: tp.Dict[str, Term] = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for nme, d in pairs:  # evaluated where the function is defined
            vals = self.ev(d, st.fork())
            if len(vals) == 1 and vals[0][2] is None:
                defaults[nme] = vals[0][1]
        t = ("closure", f.fullname, getattr(f.node, "lineno", 0), fid, tuple(sorted(defaults.items(), key=lambda z: z[0])))
        self.closures[hash(t)] = (f, fid, defaults)
        return t

    def ev_Lambda(self, e: ast.Lambda, st: State) -> tp.Any:
        return [(st, self._closure(e._nv_func, st), None)]  # type: ignore

    def ev_Attribute(self, e: ast.Attribute, st: State) -> tp.Any:
        func = st.stack[-1][0]
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value  # type: ignore
        if isinstance(root, ast.Name) and self.lookup(root.id, st) is None:
            ent = self.p.resolve_expr(e, func.module, func)
            if ent is not None and not (isinstance(ent, FuncInfo) and ent.cls is not None and ent.is_property):
                return [(st, self.entity_term(ent), None)]
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
            cls = self._def_class(func)
            slf = self._self_term(st)
            if cls is not None and slf is not None:
                full = st.stack[-1][2] or cls
                m = full.find_method(e.attr, after=cls)
                if m is not None and m.is_property:
                    return self._call_func(m, slf, [], [], st, e, cls=full, name=m.qualname, expr=e)
                if m is None and not e.attr.startswith("__"):
                    return [(st, ("superattr", slf, e.attr), None)]
                return [(st, ("method", slf, e.attr, cls.fullname), None)]
        out = []
        for s, b, o in self.ev(e.value, st):
            if o is not None:
                out.append((s, NONE, o))
            else:
                out += self.read_attr(b, e.attr, s, e)
        return out

    def _def_class(self, func: FuncInfo) -> tp.Optional[ClassInfo]:
        f: tp.Optional[FuncInfo] = func
        while f is not None and f.cls is None:
            f = f.parent
        return f.cls if f is not None else None

    def _self_term(self, st: State) -> tp.Optional[Term]:
        func, fid, _ = st.stack[-1]
        f: tp.Optional[FuncInfo] = func
        while f is not None and f.cls is None:
            f = f.parent
        if f is None or not f.params or f.is_static:
            return None
        return self.lookup(f.params[0].arg, st)

    def read_attr(self, b: Term, name: str, st: State, node: tp.Any) -> tp.Any:
        if (b, name) in st.heap:
            return [(st, st.heap[(b, name)], None)]
        typ = self.type_of(b)
        if isinstance(typ, tuple) and typ[0] == "type" and isinstance(typ[1], ClassInfo):
            m = typ[1].find_method(name)
            if m is not None:
                return [(st, ("method", b, name, None), None)]
        if isinstance(typ, ClassInfo):
            m = typ.find_method(name)
            if m is not None and m.is_property:
                if self._may_inline(m, st) and self.exact(b, typ, name, m, st):
                    return self._call_func(m, b, [], [], st, node, cls=typ, name=m.qualname, expr=node)
                return [(st, ("attr", b, name), None)]
            if m is not None:
                return [(st, ("method", b, name, None), None)]
            c, val = typ.find_class_attr(name)
            if c is not None and isinstance(val, ast.Constant) and False:
                return [(st, const(val.value), None)]
        if b[0] == "class":
            c2 = self._class_named(b[1])
            if c2 is not None and c2.find_method(name) is not None:
                return [(st, ("method", b, name, None), None)]
        if b[0] == "ext":
            return [(st, ("ext", b[1] + "." + name), None)]
        if b[0] == "module":
            m2 = self.p.modules.get(b[1])
            ent = self.p.member(m2, name) if m2 is not None else None
            if ent is not None:
                return [(st, self.entity_term(ent), None)]
        return [(st, ("attr", b, name), None)]

    def ev_Subscript(self, e: ast.Subscript, st: State) -> tp.Any:
        out = []
        for s, vals, o in self.ev_many([e.value, e.slice], st):
            if o is not None:
                out.append((s, NONE, o))
                continue
            out.append((s, self.read_sub(vals[0], vals[1], s), None))
        return out

    def read_sub(self, b: Term, i: Term, st: State) -> Term:
        if b[0] in ("tuple", "list") and is_const(i) and isinstance(i[2], int):
            items = self.known_items(b, st)
            if items is not None and -len(items) <= i[2] < len(items):
                return items[i[2]]
        if b[0] == "dict" and (b, "#items") in st.heap and is_const(i):
            for k, v in reversed(st.heap[(b, "#items")]):
                if k == i:
                    return v
        if (b, ("#sub", i)) in st.heap:
            return st.heap[(b, ("#sub", i))]  # type: ignore
        return ("sub", b, i)

    def ev_Slice(self, e: ast.Slice, st: State) -> tp.Any:
        parts = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        return [(s, ("slice",) + tuple(v), o) for s, v, o in self.ev_many(parts, st)]

    def ev_Tuple(self, e: ast.Tuple, st: State) -> tp.Any:
        return [(s, ("tuple", tuple(v)), o) for s, v, o in self.ev_many(e.elts, st)]

    def ev_List(self, e: ast.List, st: State) -> tp.Any:
        return self._literal("list", e.elts, e, st)

    def ev_Set(self, e: ast.Set, st: State) -> tp.Any:
        return self._literal("set", e.elts, e, st)

    def _literal(self, kind: str, elts: tp.Sequence[ast.expr], node: tp.Any, st: State) -> tp.Any:
        out = []
        for s, v, o in self.ev_many(elts, st):
            t = (kind, s.fresh())
            s.heap[(t, "#items")] = tuple(v)
            out.append((s, t, o))
        return out

    def ev_Dict(self, e: ast.Dict, st: State) -> tp.Any:
        out = []
        exprs: tp.List[ast.expr] = []
        for k, v in zip(e.keys, e.values):
            exprs += [k if k is not None else ast.Constant("**"), v]
        for s, vals, o in self.ev_many(exprs, st):
            t = ("dict", s.fresh())
            s.heap[(t, "#items")] = tuple((vals[i], vals[i + 1]) for i in range(0, len(vals) - 1, 2)) if o is None else ()
            if any(k is None for k in e.keys):
                s.heap[(t, "#open")] = TRUE
            out.append((s, t, o))
        return out

    def ev_Starred(self, e: ast.Starred, st: State) -> tp.Any:
        return [(s, ("star", v), o) for s, v, o in self.ev(e.value, st)]

    def ev_JoinedStr(self, e: ast.JoinedStr, st: State) -> tp.Any:
        vals = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        lits = "".join(v.value if isinstance(v, ast.Constant) else "{}" for v in e.values)
        return [(s, ("fstr", lits, tuple(v)), o) for s, v, o in self.ev_many(vals, st)]

    def ev_NamedExpr(self, e: ast.NamedExpr, st: State) -> tp.Any:
        out = []
        for s, v, o in self.ev(e.value, st):
            if o is None:
                self.set_name(e.target.id, v, s)
            out.append((s, v, o))
        return out

    def ev_Await(self, e: ast.Await, st: State) -> tp.Any:
        return self.ev(e.value, st)

    def ev_Yield(self, e: ast.Yield, st: State) -> tp.Any:
        out = []
        for s, v, o in self.ev(e.value, st) if e.value is not None else [(st, NONE, None)]:
            if o is not None:
                out.append((s, v, o))
                continue
            if self.policy.yield_raises:
                s2 = s.fork()
                self.emit(s2, "yield", e, value=v, raised=True)
                out.append((s2, NONE, Outcome("raise", ("exc", s2.fresh()), e)))
            self.emit(s, "yield", e, value=v, raised=False)
            self.havoc(s)
            out.append((s, ("sent", s.fresh()), None))
        return out

    def ev_YieldFrom(self, e: ast.YieldFrom, st: State) -> tp.Any:
        out = []
        for s, v, o in self.ev(e.value, st):
            if o is None:
                self.emit(s, "yieldfrom", e, value=v)
            out.append((s, ("sent", s.fresh()), o))
        return out

    def ev_IfExp(self, e: ast.IfExp, st: State) -> tp.Any:
        out = []
        for s, b, o in self.cond(e.test, st):
            if o is not None:
                out.append((s, NONE, o))
            else:
                out += self.ev(e.body if b else e.orelse, s)
        return out

    def ev_BoolOp(self, e: ast.BoolOp, st: State) -> tp.Any:
        isand = isinstance(e.op, ast.And)
        out: tp.List[tp.Any] = []
        live = [st]
        for i, x in enumerate(e.values):
            nxt: tp.List[State] = []
            last = i == len(e.values) - 1
            for s in live:
                if isinstance(x, (ast.Compare, ast.UnaryOp, ast.BoolOp)) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "all", "any")):
                    for s2, b, o in self.cond(x, s):
                        if o is not None:
                            out.append((s2, NONE, o))
                        elif last or b != isand:
                            out.append((s2, const(b), None))
                        else:
                            nxt.append(s2)
                    continue
                for s2, v, o in self.ev(x, s):
                    if o is not None or last:
                        out.append((s2, v, o))
                        continue
                    for s3, b in self.split(v, s2):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            out.append((s3, v, None))
            live = nxt
        return out

    def ev_UnaryOp(self, e: ast.UnaryOp, st: State) -> tp.Any:
        if isinstance(e.op, ast.Not):
            return [(s, const(b) if o is None else NONE, o) for s, b, o in self.cond(e, st)]
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        out = []
        for s, v, o in self.ev(e.operand, st):
            if is_const(v) and op == "-" and isinstance(v[2], (int, float)):
                out.append((s, const(-v[2]), o))
            else:
                out.append((s, ("un", op, v), o))
        return out

    def ev_BinOp(self, e: ast.BinOp, st: State) -> tp.Any:
        return [(s, self.binop(BINOPS[type(e.op)], v[0], v[1], s) if o is None else NONE, o) for s, v, o in self.ev_many([e.left, e.right], st)]

    def binop(self, op: str, l: Term, r: Term, st: State) -> Term:
        num = (int, float)
        if is_const(l) and is_const(r) and isinstance(l[2], num) and isinstance(r[2], num):
            try:
                return const({"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b}[op](l[2], r[2]))
            except Exception:
                pass
        if op == "-" and is_const(r) and isinstance(r[2], num):
            op, r = "+", const(-r[2])
        if op == "+" and is_const(l) and isinstance(l[2], num):
            l, r = r, l
        if op == "+" and is_const(r) and isinstance(r[2], num) and l[0] == "bin" and l[1] == "+" and is_const(l[3]) and isinstance(l[3][2], num):
            c = l[3][2] + r[2]
            return l[2] if c == 0 else ("bin", "+", l[2], const(c))
        if op == "*" and is_const(r) and not is_const(l):
            l, r = r, l
        if op == "+" and l[0] == "list" and r[0] == "list" and (l, "#items") in st.heap and (r, "#items") in st.heap:
            t = ("list", st.fresh())
            st.heap[(t, "#items")] = tuple(st.heap[(l, "#items")]) + tuple(st.heap[(r, "#items")])
            return t
        return ("bin", op, l, r)

    def ev_Compare(self, e: ast.Compare, st: State) -> tp.Any:
        out = []
        for s, v, o in self.ev_many([e.left] + list(e.comparators), st):
            if o is not None:
                out.append((s, NONE, o))
                continue
            terms = []
            for op, l, r in zip(e.ops, v, v[1:]):
                terms.append(self.compare(op, l, r))
            if len(terms) == 1:
                t = terms[0]
                core, neg = (t[1], True) if t[0] == "not" else (t, False)
                d = self.decide(core, s)
                out.append((s, const(d != neg) if d is not None else t, None))
            else:
                live = [s]
                for i, t in enumerate(terms):
                    nxt = []
                    for s2 in live:
                        for s3, b in self.split(t, s2):
                            if not b or i == len(terms) - 1:
                                out.append((s3, const(b), None))
                            else:
                                nxt.append(s3)
                    live = nxt
        return out

    def compare(self, op: ast.cmpop, l: Term, r: Term) -> Term:
        n = type(op).__name__
        if n in ("Eq", "NotEq", "Gt", "GtE", "Lt", "LtE"):  # len(x) compared with 0 / 1
            for a, b, flip in ((l, r, False), (r, l, True)):
                if a[0] == "call" and a[1] == "builtins.len" and len(a[3]) == 1 and is_const(b) and isinstance(b[2], int):
                    m = n if not flip else {"Gt": "Lt", "GtE": "LtE", "Lt": "Gt", "LtE": "GtE"}.get(n, n)
                    tr = ("truth", a[3][0])
                    if b[2] == 0 and m in ("Eq", "LtE"):
                        return ("not", tr)
                    if b[2] == 0 and m in ("NotEq", "Gt"):
                        return tr
                    if b[2] == 1 and m == "GtE":
                        return tr
                    if b[2] == 1 and m == "Lt":
                        return ("not", tr)
        if n in ("Gt", "GtE"):
            l, r, n = r, l, {"Gt": "Lt", "GtE": "LtE"}[n]
        if n == "Lt":
            return ("cmp", "<", l, r)
        if n == "LtE":
            return ("cmp", "<=", l, r)
        if n in ("Eq", "NotEq", "Is", "IsNot"):
            if is_const(l) and not is_const(r):
                l, r = r, l
            elif not is_const(r) and repr(l) > repr(r):
                l, r = r, l
            t = ("cmp", "==" if n in ("Eq", "NotEq") else "is", l, r)
            if r == NONE:
                t = ("cmp", "is", l, r)
            return t if n in ("Eq", "Is") else ("not", t)
        t = ("cmp", "in", l, r)
        return t if n == "In" else ("not", t)

    def _comp(self, e: tp.Any, st: State, kind: str) -> tp.Any:
        out: tp.List[tp.Any] = []
        if self.policy.comp_exact:
            parts = [e.elt] if not isinstance(e, ast.DictComp) else [e.key, e.value]

            def body(s: State, acc: tp.Any) -> tp.List[tp.Any]:
                return [(s2, acc + ((vals[0],) if kind != "dict" else ((vals[0], vals[1]),)) if o is None else acc, False, o) for s2, vals, o in self.ev_many(parts, s)]

            for s, acc, _, o in self._comp_unrolled(e.generators, 0, st, (), body):
                t = (kind, s.fresh())
                s.heap[(t, "#items")] = acc
                out.append((s, t if o is None else NONE, o))
            return out
        for s, k, o in self._comp_iter(e.generators, 0, st):
            if o is not None:
                out.append((s, NONE, o))
                continue
            exprs = [e.elt] if not isinstance(e, ast.DictComp) else [e.key, e.value]
            if k == "empty":
                t = (kind, s.fresh())
                s.heap[(t, "#items")] = ()
                s.heap[(t, "#open")] = TRUE
                out.append((s, t, None))
                continue
            for s2, vals, o2 in self.ev_many(exprs, s):
                t = (kind, s2.fresh())
                if o2 is None:
                    s2.heap[(t, "#items")] = (("rep", vals[0]),) if kind != "dict" else ((vals[0], vals[1]),)
                    s2.heap[(t, "#open")] = TRUE
                out.append((s2, t, o2))
        return out

    def ev_ListComp(self, e: ast.ListComp, st: State) -> tp.Any:
        return self._comp(e, st, "list")

    def ev_GeneratorExp(self, e: ast.GeneratorExp, st: State) -> tp.Any:
        return self._comp(e, st, "list")

    def ev_SetComp(self, e: ast.SetComp, st: State) -> tp.Any:
        return self._comp(e, st, "set")

    def ev_DictComp(self, e: ast.DictComp, st: State) -> tp.Any:
        return self._comp(e, st, "dict")

    # ------------------------------------------------------------------ calls
    def ev_Call(self, e: ast.Call, st: State) -> tp.Any:
        self.calls_seen += 1
        f = e.func
        if isinstance(f, ast.Name) and self.lookup(f.id, st) is None:
            if f.id == "isinstance" and len(e.args) == 2:
                return self._isinstance(e, st)
            if f.id in ("all", "any") and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                return [(s, const(b) if o is None else NONE, o) for s, b, o in self._quantifier(e, st)]
            if f.id == "sum" and self.policy.comp_exact and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and isinstance(e.args[0].elt, ast.Compare):
                return self._count(e.args[0], st)
        out: tp.List[tp.Any] = []
        for s, ft, o in self.ev(f, st):
            if o is not None:
                out.append((s, NONE, o))
                continue
            exprs = list(e.args) + [k.value for k in e.keywords]
            for s2, vals, o2 in self.ev_many(exprs, s):
                if o2 is not None:
                    out.append((s2, NONE, o2))
                    continue
                args = []
                for v in vals[: len(e.args)]:
                    known = self.known_items(v[1], s2) if v[0] == "star" and v[1][0] in ("tuple", "list") else None
                    args += [v] if known is None else known
                kwargs = []
                for k, v in zip(e.keywords, vals[len(e.args):]):
                    pairs = s2.heap.get((v, "#items")) if k.arg is None and v[0] == "dict" and (v, "#open") not in s2.heap else None
                    if pairs is not None and all(isinstance(x, tuple) and len(x) == 2 and is_const(x[0]) and isinstance(x[0][2], str) for x in pairs):
                        kwargs += [(x[0][2], x[1]) for x in pairs]
                    else:
                        kwargs.append((k.arg if k.arg is not None else "**", v))
                out += self.call(ft, args, kwargs, s2, e)
        self.budget(len(out))
        return out

    def _isinstance(self, e: ast.Call, st: State) -> tp.Any:
        out: tp.List[tp.Any] = []
        func = st.stack[-1][0]
        for s, x, o in self.ev(e.args[0], st):
            if o is not None:
                out.append((s, NONE, o))
                continue
            spec = e.args[1]
            names = []
            for c in spec.elts if isinstance(spec, ast.Tuple) else [spec]:
                ent = self.p.resolve_expr(c, func.module, func)
                if isinstance(ent, ClassInfo):
                    names.append(ent.fullname)
                elif isinstance(ent, External):
                    names.append(ent.dotted)
                elif isinstance(ent, ModVar) and len(ent.exprs) == 1 and isinstance(ent.exprs[0], ast.Tuple):
                    for y in ent.exprs[0].elts:
                        e2 = self.p.resolve_expr(y, ent.module, None)
                        names.append(e2.fullname if isinstance(e2, ClassInfo) else getattr(e2, "dotted", ast.unparse(y)))
                else:
                    names.append(ast.unparse(c))
            live = [s]
            for i, n in enumerate(names):
                nxt = []
                for s2 in live:
                    for s3, b in self.split(("inst", x, n), s2):
                        if b or i == len(names) - 1:
                            out.append((s3, const(b), None))
                        else:
                            nxt.append(s3)
                live = nxt
        return out

    def exact(self, recv: Term, cls: ClassInfo, name: str, m: FuncInfo, st: State) -> bool:
        """Whether the method found on the static class is the one which runs: the analysed object itself (whose class is
        the analysed class), a freshly built object, or a method that no subclass overrides."""
        if recv[0] == "new":
            return True
        if recv[0] == "call" and recv[1] in ("copy.copy", "copy.deepcopy") and recv[3]:
            return self.exact(recv[3][0], cls, name, m, st)
        if st.stack and recv == self._root_self(st):
            return self.policy.self_exact or not self.overridden(cls, name)
        return not self.overridden(cls, name)

    def _root_self(self, st: State) -> tp.Optional[Term]:
        f, fid, _ = st.stack[0]
        if f.cls is None or not f.params:
            return None
        return ("param", f.params[0].arg)

    def overridden(self, cls: ClassInfo, name: str) -> bool:
        return any(name in c.methods for c in cls.all_subclasses() if c is not cls)

    def _may_inline(self, m: FuncInfo, st: State) -> bool:
        if len(st.stack) > self.policy.max_depth:
            return False
        if any(x[0] is m for x in st.stack):
            return False
        body = m.node.body if not isinstance(m.node, ast.Lambda) else []
        if body and all(isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) and x.value.value in (Ellipsis,) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) and isinstance(x.value.value, str)) for x in body) and m.cls is not None and "Protocol" in " ".join(m.cls.external_bases):
            return False
        if m.is_generator or isinstance(m.node, ast.AsyncFunctionDef) or m.is_contextmanager:
            return False
        return self.policy.inline(m, self, st)

    def call(self, ft: Term, args: tp.List[Term], kwargs: tp.List[tp.Tuple[str, Term]], st: State, node: tp.Any) -> tp.Any:
        k = ft[0]
        if k == "closure":
            f, fid, defaults = self.closures[hash(ft)]
            return self._call_func(f, None, args, kwargs, st, node, parent_fid=fid, name=f.name, defaults=defaults)
        if k == "func":
            f2 = self._func_named(ft[1])
            if f2 is not None:
                return self._call_func(f2, None, args, kwargs, st, node, name=f2.fullname.replace(":", "."))
        if k == "class":
            c = self._class_named(ft[1])
            assert c is not None
            t: Term = ("new", c.fullname, st.fresh())
            init = c.find_method("__init__")
            res = []
            ev = self.emit(st, "call", node, name=c.name, callee=c, recv=None, args=tuple(args), kwargs=tuple(kwargs), result=t, inlined=False)
            if self.policy.raises(ev):
                s2 = st.fork()
                res.append(self._raised(s2, ev))
            if init is not None and c.name in self.policy.inline_classes and self._may_inline(init, st):
                for s, v, o in self._call_func(init, t, args, kwargs, st, node, cls=c, name=init.qualname):
                    res.append((s, t, o))
                return res
            return res + [(st, t, None)]
        if k == "method":
            recv, name, after = ft[1], ft[2], ft[3]
            typ = self.type_of(recv)
            cls = typ[1] if isinstance(typ, tuple) and typ[0] == "type" else typ
            if recv[0] == "class":
                cls = self._class_named(recv[1])
            if isinstance(cls, ClassInfo):
                m = cls.find_method(name, after=self._class_named(after) if after else None)
                if m is not None:
                    nm = f"{cls.name}.{name}" if after is None else f"super.{name}"
                    if m.is_static:
                        return self._call_func(m, None, args, kwargs, st, node, cls=cls, name=nm)
                    if recv[0] == "class" and not m.is_classmethod:
                        return self._call_func(m, args[0] if args else None, args[1:], kwargs, st, node, cls=self._recv_cls(args[0], cls) if args else cls, name=nm)
                    if after is None and not self.exact(recv, cls, name, m, st):
                        return self._opaque(nm, m, recv, args, kwargs, st, node, rtype=self.p.return_type(m, cls))
                    return self._call_func(m, recv, args, kwargs, st, node, cls=cls, name=nm)
                return self._opaque(f"super.{name}" if after else name, None, recv, args, kwargs, st, node)
        if k == "attr":
            return self._method_on(ft[1], ft[2], args, kwargs, st, node)
        if k == "superattr":
            return self._opaque("super." + ft[2], None, ft[1], args, kwargs, st, node)
        if k == "ext":
            return self._ext_call(ft[1], args, kwargs, st, node)
        return self._opaque("<value>", None, ft, args, kwargs, st, node)

    def _recv_cls(self, t: Term, default: ClassInfo) -> ClassInfo:
        ty = self.type_of(t)
        return ty if isinstance(ty, ClassInfo) else default

    MUTATORS = frozenset(["append", "appendleft", "extend", "add", "insert", "pop", "popleft", "remove", "clear", "update", "discard", "setdefault", "sort", "reverse", "popitem"])

    def _method_on(self, recv: Term, name: str, args: tp.List[Term], kwargs: tp.Any, st: State, node: tp.Any) -> tp.Any:
        if recv[0] in ("list", "set") and (recv, "#items") in st.heap:
            items = st.heap[(recv, "#items")]
            if name in ("append", "add") and len(args) == 1:
                st.heap[(recv, "#items")] = items + (args[0],)
            elif name in self.MUTATORS:
                st.heap[(recv, "#open")] = TRUE
        if recv[0] == "dict" and (recv, "#items") in st.heap and name in self.MUTATORS:
            if name == "update" and not args:
                st.heap[(recv, "#items")] = st.heap[(recv, "#items")] + tuple((const(k), v) for k, v in kwargs)
            else:
                st.heap[(recv, "#open")] = TRUE
        if recv[0] == "dict" and name == "get" and args and (recv, "#items") in st.heap and is_const(args[0]):
            for k, v in reversed(st.heap[(recv, "#items")]):
                if k == args[0]:
                    return [(st, v, None)]
        return self._opaque(name, None, recv, args, kwargs, st, node)

    def _ext_call(self, dotted: str, args: tp.List[Term], kwargs: tp.Any, st: State, node: tp.Any) -> tp.Any:
        if dotted == "builtins.getattr" and len(args) >= 2 and is_const(args[1]) and isinstance(args[1][2], str) and len(args) == 2:
            return self.read_attr(args[0], args[1][2], st, node)
        if dotted == "builtins.setattr" and len(args) == 3 and is_const(args[1]):
            return [(s, NONE, o) for s, o in self.write_attr(args[0], str(args[1][2]), args[2], st, node)]
        if dotted == "builtins.delattr" and len(args) == 2 and is_const(args[1]):
            return [(s, NONE, o) for s, o in self.del_attr(args[0], str(args[1][2]), st, node)]
        if dotted == "builtins.tuple" and len(args) == 1:
            k = self.known_items(args[0], st)
            if k is not None:
                return [(st, ("tuple", k), None)]
        if dotted in ("builtins.list", "builtins.set", "builtins.dict") and not args:
            t: Term = (dotted.rsplit(".", 1)[-1], st.fresh())
            st.heap[(t, "#items")] = tuple((const(k), v) for k, v in kwargs) if dotted == "builtins.dict" else ()
            if any(k == "**" for k, _ in kwargs):
                st.heap[(t, "#open")] = TRUE
            return [(st, t, None)]
        if dotted in ("builtins.max", "builtins.min", "builtins.sorted") and any(k == "key" and v[0] in ("closure", "func") for k, v in kwargs) and args:
            elem = self.element(args[0], st, 0)
            key = dict(kwargs)["key"]
            if key[0] == "closure" and self.type_of(elem) is None:
                pass
            res = self.call(key, [elem], [], st.fork(), node)
            if len(res) == 1 and res[0][2] is None:
                kwargs = [(k, v if k != "key" else ("keyfn", elem, res[0][1])) for k, v in kwargs]
        if dotted in ("builtins.max", "builtins.min") and len(args) > 1 and not kwargs:
            red = self._minmax(dotted[9:], args)
            if red is not None:
                return [(st, red, None)]
        if dotted in ("builtins.float", "builtins.int", "builtins.bool") and len(args) == 1 and is_const(args[0]):
            try:
                return [(st, const({"f": float, "i": int, "b": bool}[dotted[9]](args[0][2])), None)]
            except Exception:
                pass
        return self._opaque(dotted, External(dotted), None, args, kwargs, st, node)

    @staticmethod
    def _minmax(op: str, args: tp.List[Term]) -> tp.Optional[Term]:
        """Constant folding, including max(0, min(0, x)) == 0."""
        consts = [a[2] for a in args if is_const(a) and isinstance(a[2], (int, float))]
        rest = [a for a in args if not (is_const(a) and isinstance(a[2], (int, float)))]
        if not consts:
            return None
        c = max(consts) if op == "max" else min(consts)
        dual = "builtins.min" if op == "max" else "builtins.max"
        keep = []
        for a in rest:
            if a[0] == "call" and a[1] == dual and a[2] is None:
                bounds = [x[2] for x in a[3] if is_const(x) and isinstance(x[2], (int, float))]
                if bounds and ((op == "max" and min(bounds) <= c) or (op == "min" and max(bounds) >= c)):
                    continue
            keep.append(a)
        if not keep:
            return const(c)
        return ("call", "builtins." + op, None, tuple(sorted([const(c)] + keep, key=repr)), ())

    def _is_pure(self, name: str, recv: tp.Optional[Term]) -> bool:
        if self.policy.pure(name):
            return True
        if name in FRESH:
            return False
        if any(name == x or (x.endswith(".") and name.startswith(x)) for x in PURE_EXT):
            return True
        if name.startswith("numpy.") and not name.startswith(IMPURE_NP):
            return True
        return False

    def _opaque(self, name: str, callee: tp.Any, recv: tp.Optional[Term], args: tp.List[Term], kwargs: tp.Any, st: State, node: tp.Any, rtype: tp.Any = None) -> tp.Any:
        pure = self._is_pure(name, recv)
        if name in self.policy.ignore:
            return [(st, NONE, None)]
        if pure:
            t: Term = ("call", name, recv, tuple(args), tuple(kwargs))
        else:
            t = ("call", name, recv, tuple(args), tuple(kwargs), st.fresh())
        if rtype is not None:
            self.types[t] = rtype
        ev = self.emit(st, "call", node, name=name, callee=callee, recv=recv, args=tuple(args), kwargs=tuple(kwargs), result=t, inlined=False)
        res = []
        if self.policy.raises(ev):
            res.append(self._raised(st.fork(), ev))
        if not pure and name.rsplit(".", 1)[-1] not in ("get", "keys", "values", "items", "format", "join", "split", "astype", "ravel", "startswith", "endswith", "copy", "tobytes"):
            self.havoc(st)
        return res + [(st, t, None)]

    def _raised(self, st: State, ev: Event) -> tp.Any:
        data = dict(ev.data)
        data["raised"] = True
        e2 = Event("call", ev.node, ev.func, data, ev.conds, ev.stack)
        if st.events is not None and st.events[1] is ev:
            st.events = (st.events[0], e2)
        else:
            st.events = (st.events, e2)
        self.havoc(st)
        return (st, NONE, Outcome("raise", ("exc", st.fresh(), data["name"]), ev.node))

    def _call_func(self, f: FuncInfo, recv: tp.Optional[Term], args: tp.List[Term], kwargs: tp.Any, st: State, node: tp.Any, cls: tp.Optional[ClassInfo] = None, name: str = "", parent_fid: tp.Optional[int] = None, expr: tp.Any = None, defaults: tp.Optional[tp.Dict[str, Term]] = None) -> tp.Any:
        if not self._may_inline(f, st) or any(a[0] == "star" for a in args) or any(k == "**" for k, _ in kwargs):
            rt = self.p.return_type(f, cls) if not isinstance(f.node, ast.Lambda) else None
            return self._opaque(name or f.qualname, f, recv, args, kwargs, st, node, rtype=rt)
        env: tp.Dict[str, tp.Any] = {}
        if parent_fid is not None:
            env["#parent"] = parent_fid
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        actual = list(args)
        if f.cls is not None and not f.is_static:
            actual = [recv if recv is not None else ("unknown", "self")] + actual
        bound: tp.Set[str] = set()
        for nme, v in zip(pos, actual):
            env[nme] = v
            bound.add(nme)
        if len(actual) > len(pos) and a.vararg is not None:
            env[a.vararg.arg] = ("tuple", tuple(actual[len(pos):]))
        elif a.vararg is not None:
            env[a.vararg.arg] = ("tuple", ())
        extra = []
        allnames = set(pos) | {x.arg for x in a.kwonlyargs}
        for kname, v in kwargs:
            if kname in allnames:
                env[kname] = v
                bound.add(kname)
            else:
                extra.append((const(kname), v))
        if a.kwarg is not None:
            t = ("dict", st.fresh())
            st.heap[(t, "#items")] = tuple(extra)
            env[a.kwarg.arg] = t
        # defaults
        dpos = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dkw = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for nme in allnames - bound:
            d = dpos.get(nme, dkw.get(nme))
            if defaults is not None and nme in defaults:
                env[nme] = defaults[nme]
            elif isinstance(d, ast.Constant):
                env[nme] = const(d.value)
            elif d is not None:
                r = self.p.resolve_expr(d, f.module, None) if isinstance(d, (ast.Name, ast.Attribute)) else None
                env[nme] = self.entity_term(r) if r is not None else ("default", f.fullname, nme)
            else:
                env[nme] = ("missing", nme)
        for x in f.params:
            v = env.get(x.arg)
            if v is not None and v[0] in ("item", "call", "sub", "attr", "param") and self.type_of(v) is None:
                ty = self.p.type_from_annotation(x.annotation, f.module, f, cls)
                if isinstance(ty, ClassInfo):
                    self.types[v] = ty
        self.inlined.add(f.fullname)
        fid = self._new_fid()
        saved = st.stack
        s = st
        s.frames[fid] = env
        s.stack = saved + ((f, fid, cls),)
        out = []
        for s2, o in self._body(f, s):
            s2.stack = saved
            if o.kind == "return":
                out.append((s2, o.value, None))
            elif o.kind == "raise":
                out.append((s2, NONE, o))
        self.budget(len(out))
        return out

    # ------------------------------------------------------------------ writes
    def set_name(self, name: str, v: Term, st: State) -> None:
        func, fid, _ = st.stack[-1]
        env = st.frames[fid]
        # nonlocal
        for n in func.node.body if not isinstance(func.node, ast.Lambda) else []:
            if isinstance(n, ast.Nonlocal) and name in n.names:
                cur: tp.Any = env.get("#parent")
                while cur is not None:
                    if name in st.frames.get(cur, {}):
                        st.frames[cur][name] = v
                        return
                    cur = st.frames.get(cur, {}).get("#parent")
            if isinstance(n, ast.Global) and name in n.names:
                self.emit(st, "setglobal", n, name=name, value=v)
                return
        env[name] = v

    def write_attr(self, b: Term, name: str, v: Term, st: State, node: tp.Any) -> tp.List[tp.Tuple[State, tp.Optional[Outcome]]]:
        typ = self.type_of(b)
        if isinstance(typ, ClassInfo):
            setter = typ.find_setter(name)
            if setter is not None and self._may_inline(setter, st):
                return [(s, o) for s, _, o in self._call_func(setter, b, [v], [], st, node, cls=typ, name=setter.qualname)]
            if setter is not None:
                ev = self.emit(st, "setattr", node, base=b, name=name, value=v, prop=True)
                if self.policy.raises(ev):
                    return [(st, None), (self._raised_any(st.fork(), ev), Outcome("raise", ("exc", st.fresh(), name), node))]
                return [(st, None)]
        ev = self.emit(st, "setattr", node, base=b, name=name, value=v, prop=False)
        st.heap[(b, name)] = v
        for t in list(st.assume):  # conditions read through this attribute are stale
            if contains(t, ("attr", b, name)) and False:
                del st.assume[t]
        return [(st, None)]

    def _raised_any(self, st: State, ev: Event) -> State:
        return st

    def del_attr(self, b: Term, name: str, st: State, node: tp.Any) -> tp.List[tp.Tuple[State, tp.Optional[Outcome]]]:
        self.emit(st, "delattr", node, base=b, name=name)
        st.heap.pop((b, name), None)
        self.havoc(st)
        return [(st, None)]

    def bind(self, target: ast.expr, v: Term, st: State, node: tp.Any) -> tp.List[State]:
        return [s for s, o in self.assign(target, v, st, node) if o is None]

    def assign(self, target: ast.expr, v: Term, st: State, node: tp.Any) -> tp.List[tp.Tuple[State, tp.Optional[Outcome]]]:
        if isinstance(target, ast.Name):
            self.set_name(target.id, v, st)
            return [(st, None)]
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, node)
        if isinstance(target, (ast.Tuple, ast.List)):
            items = self.known_items(v, st)
            n = len(target.elts)
            out: tp.List[tp.Any] = [(st, None)]
            star = any(isinstance(t, ast.Starred) for t in target.elts)
            for i, t in enumerate(target.elts):
                val = items[i] if items is not None and len(items) == n and not star else self.read_sub(v, const(i), st)
                nxt = []
                for s, o in out:
                    nxt += [(s, o)] if o is not None else self.assign(t, val, s, node)
                out = nxt
            return out
        if isinstance(target, ast.Attribute):
            out = []
            for s, b, o in self.ev(target.value, st):
                if o is not None:
                    out.append((s, o))
                else:
                    out += self.write_attr(b, target.attr, v, s, node)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, vals, o in self.ev_many([target.value, target.slice], st):
                if o is not None:
                    out.append((s, o))
                    continue
                self.write_sub(vals[0], vals[1], v, s, node)
                out.append((s, None))
            return out
        return [(st, None)]

    def write_sub(self, b: Term, i: Term, v: Term, st: State, node: tp.Any) -> None:
        self.emit(st, "setitem", node, base=b, idx=i, value=v)
        if b[0] == "dict" and (b, "#items") in st.heap:
            st.heap[(b, "#items")] = tuple(x for x in st.heap[(b, "#items")] if x[0] != i) + ((i, v),)
        elif b[0] in ("list",):
            st.heap[(b, "#open")] = TRUE
        for key in [key for key in st.heap if key[0] == b and isinstance(key[1], tuple) and key[1][1] != i]:
            if not (is_const(key[1][1]) and is_const(i)):  # type: ignore
                del st.heap[key]
        st.heap[(b, ("#sub", i))] = v  # type: ignore
        for t in list(st.assume):
            if t[0] in ("truth", "cmp") and contains(t, b) and not (t[0] == "cmp" and t[1] == "is"):
                del st.assume[t]

    # ------------------------------------------------------------------ statements
    def block(self, body: tp.Sequence[ast.stmt], st: State) -> tp.List[tp.Tuple[State, Outcome]]:
        live: tp.List[State] = [st]
        done: tp.List[tp.Tuple[State, Outcome]] = []
        for stmt in body:
            nxt: tp.List[State] = []
            for s in live:
                for s2, o in self.stmt(stmt, s):
                    if o.kind == "next":
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            live = self.merge(nxt)
            self.budget(len(live) + len(done))
            if not live:
                break
        return done + [(s, NEXT) for s in live]

    def merge(self, states: tp.List[State]) -> tp.List[State]:
        """Joins states which differ only by conditions without any observable effect."""
        if len(states) < 2:
            return states
        out: tp.Dict[tp.Any, State] = {}
        order: tp.List[State] = []
        for s in states:
            key = (id(s.events) if s.events is not None else 0, tuple((k, tuple(sorted(((a, b) for a, b in v.items()), key=lambda z: z[0]))) for k, v in s.frames.items() if k in [x[1] for x in s.stack]), len(s.heap), frozenset((t, b) for t, b in s.assume.items() if self.policy.keep(t)))
            try:
                prev = out.get(key)
            except TypeError:
                order.append(s)
                continue
            if prev is not None and prev.heap == s.heap:
                prev.assume = {t: b for t, b in prev.assume.items() if s.assume.get(t) is b}
                prev.conds = _common(prev.conds, s.conds)
                prev.n = max(prev.n, s.n)
            else:
                out[key] = s
                order.append(s)
        return order

    def stmt(self, n: ast.stmt, st: State) -> tp.List[tp.Tuple[State, Outcome]]:
        self.npaths += 1
        if self.npaths > self.policy.max_steps:
            raise AnalysisBroken(f"too many steps ({self.policy.max_steps})")
        self.stmts_seen.add(id(n))
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            return [(st, NEXT)]
        return m(n, st)

    @staticmethod
    def _o(o: tp.Optional[Outcome]) -> Outcome:
        return NEXT if o is None else o

    def st_Expr(self, n: ast.Expr, st: State) -> tp.Any:
        if isinstance(n.value, ast.Constant):
            return [(st, NEXT)]
        return [(s, self._o(o)) for s, _, o in self.ev(n.value, st)]

    def st_Assign(self, n: ast.Assign, st: State) -> tp.Any:
        out: tp.List[tp.Any] = []
        for s, v, o in self.ev(n.value, st):
            if o is not None:
                out.append((s, o))
                continue
            live: tp.List[tp.Any] = [(s, None)]
            for t in n.targets:
                nxt = []
                for s2, o2 in live:
                    nxt += [(s2, o2)] if o2 is not None else self.assign(t, v, s2, n)
                live = nxt
            out += [(s2, self._o(o2)) for s2, o2 in live]
        return out

    def st_AnnAssign(self, n: ast.AnnAssign, st: State) -> tp.Any:
        if n.value is None:
            return [(st, NEXT)]
        out: tp.List[tp.Any] = []
        func = st.stack[-1][0]
        ty = self.p.type_from_annotation(n.annotation, func.module, func, func.cls)
        for s, v, o in self.ev(n.value, st):
            if o is not None:
                out.append((s, o))
                continue
            if ty is not None and v[0] in ("call", "attr", "sub", "item", "val") and self.type_of(v) is None:
                self.types[v] = ty
            out += [(s2, self._o(o2)) for s2, o2 in self.assign(n.target, v, s, n)]
        return out

    def st_AugAssign(self, n: ast.AugAssign, st: State) -> tp.Any:
        load: tp.Any = n.target
        out: tp.List[tp.Any] = []
        load = ast.copy_location(type(n.target)(**{f: getattr(n.target, f) for f in n.target._fields}), n.target)  # type: ignore
        load.ctx = ast.Load()
        for s, v, o in self.ev_many([load, n.value], st):
            if o is not None:
                out.append((s, o))
                continue
            if v[0][0] in ("list", "set") and isinstance(n.op, (ast.Add, ast.BitOr)) and isinstance(n.target, ast.Name):
                items = self.known_items(v[1], s)
                if items is not None and (v[0], "#items") in s.heap:
                    s.heap[(v[0], "#items")] = s.heap[(v[0], "#items")] + tuple(items)
                else:
                    s.heap[(v[0], "#open")] = TRUE
                self.emit(s, "call", n, name="extend", callee=None, recv=v[0], args=(v[1],), kwargs=(), result=NONE, inlined=False)
                out.append((s, NEXT))
                continue
            val = self.binop(BINOPS[type(n.op)], v[0], v[1], s)
            self.emit(s, "aug", n, old=v[0], op=BINOPS[type(n.op)], value=v[1], result=val)
            out += [(s2, self._o(o2)) for s2, o2 in self.assign(n.target, val, s, n)]
        return out

    def st_Return(self, n: ast.Return, st: State) -> tp.Any:
        if n.value is None:
            return [(st, Outcome("return", NONE, n))]
        return [(s, o if o is not None else Outcome("return", v, n)) for s, v, o in self.ev(n.value, st)]

    def st_Raise(self, n: ast.Raise, st: State) -> tp.Any:
        if n.exc is None:
            cur = st.frames[st.stack[-1][1]].get("#exc")
            return [(st, Outcome("raise", cur if cur is not None else ("exc", 0, "reraise"), n))]
        return [(s, o if o is not None else Outcome("raise", v, n)) for s, v, o in self.ev(n.exc, st)]

    def st_Assert(self, n: ast.Assert, st: State) -> tp.Any:
        out: tp.List[tp.Any] = []
        for s, b, o in self.cond(n.test, st):
            if o is not None:
                out.append((s, o))
            elif b:
                out.append((s, NEXT))
            elif self.policy.assert_raises:
                self.emit(s, "assertfail", n)
                out.append((s, Outcome("raise", ("new", "builtins.AssertionError", s.fresh()), n)))
        return out

    def st_Delete(self, n: ast.Delete, st: State) -> tp.Any:
        live: tp.List[tp.Any] = [(st, None)]
        for t in n.targets:
            nxt: tp.List[tp.Any] = []
            for s, o in live:
                if o is not None:
                    nxt.append((s, o))
                elif isinstance(t, ast.Attribute):
                    for s2, b, o2 in self.ev(t.value, s):
                        nxt += [(s2, o2)] if o2 is not None else self.del_attr(b, t.attr, s2, n)
                elif isinstance(t, ast.Subscript):
                    for s2, vals, o2 in self.ev_many([t.value, t.slice], s):
                        if o2 is None:
                            self.emit(s2, "delitem", n, base=vals[0], idx=vals[1])
                            s2.heap.pop((vals[0], ("#sub", vals[1])), None)  # type: ignore
                            self.havoc(s2)
                        nxt.append((s2, o2))
                else:
                    if isinstance(t, ast.Name):
                        s.frames[s.stack[-1][1]].pop(t.id, None)
                        self.emit(s, "delname", n, name=t.id)
                    nxt.append((s, None))
            live = nxt
        return [(s, self._o(o)) for s, o in live]

    def st_If(self, n: ast.If, st: State) -> tp.Any:
        out: tp.List[tp.Any] = []
        tsts: tp.List[State] = []
        fsts: tp.List[State] = []
        for s, b, o in self.cond(n.test, st):
            if o is not None:
                out.append((s, o))
            else:
                (tsts if b else fsts).append(s)
        for s in self.merge(tsts):
            out += self.block(n.body, s)
        for s in self.merge(fsts):
            out += self.block(n.orelse, s) if n.orelse else [(s, NEXT)]
        return out

    def st_For(self, n: ast.For, st: State) -> tp.Any:
        out: tp.List[tp.Any] = []
        for s, it, o in self.ev(n.iter, st):
            if o is not None:
                out.append((s, o))
                continue
            known = self.known_items(it, s)
            exact = known is not None and len(known) <= 6
            maxk = len(known) if exact else max(self.policy.unroll)  # type: ignore
            live = [s]
            lid = s.fresh()
            for k in range(maxk + 1):
                exits = (k == maxk) if exact else (k in self.policy.unroll) and not (k == 0 and self.nonempty(it, s))
                if exits:
                    for s2 in live:
                        s3 = s2 if k == maxk else s2.fork()
                        self.emit(s3, "loopend", n, it=it, count=k, lid=lid, exact=exact)
                        out += self.block(n.orelse, s3) if n.orelse else [(s3, NEXT)]
                if k == maxk:
                    break
                nxt: tp.List[State] = []
                for s2 in live:
                    elem = known[k] if exact else self.element(it, s2, k)  # type: ignore
                    self.emit(s2, "iter", n, it=it, k=k, elem=elem, lid=lid)
                    for s3 in self.bind(n.target, elem, s2, n):
                        for s4, o4 in self.block(n.body, s3):
                            if o4.kind in ("next", "continue"):
                                nxt.append(s4)
                            elif o4.kind == "break":
                                self.emit(s4, "loopbreak", n, it=it, lid=lid)
                                out.append((s4, NEXT))
                            else:
                                out.append((s4, o4))
                live = self.merge(nxt)
                self.budget(len(live) + len(out))
        return out

    st_AsyncFor = st_For

    def nonempty(self, it: Term, st: State) -> bool:
        """range(max(1, ...)) and containers known to be true have at least one element."""
        if it[0] == "call" and it[1] == "builtins.range" and len(it[3]) == 1:
            x = it[3][0]
            if x[0] == "call" and x[1] == "builtins.max" and any(is_const(a) and isinstance(a[2], (int, float)) and a[2] >= 1 for a in x[3]):
                return True
            if st.assume.get(("truth", x)) is True and x[0] == "call" and x[1] == "builtins.max" and any(is_const(a) and isinstance(a[2], (int, float)) and a[2] >= 0 for a in x[3]):
                return True
        if it[0] == "call" and it[1] in ("builtins.list", "builtins.tuple", "builtins.enumerate", "builtins.sorted", "builtins.reversed") and it[3]:
            return self.nonempty(it[3][0], st)
        return st.assume.get(("truth", it)) is True

    def st_While(self, n: ast.While, st: State) -> tp.Any:
        out: tp.List[tp.Any] = []
        live = [st]
        lid = st.fresh()
        for k in range(self.policy.while_unroll + 1):
            nxt: tp.List[State] = []
            for s in live:
                for s2, b, o in self.cond(n.test, s):
                    if o is not None:
                        out.append((s2, o))
                    elif not b:
                        self.emit(s2, "loopend", n, it=None, count=k, lid=lid, exact=False)
                        out += self.block(n.orelse, s2) if n.orelse else [(s2, NEXT)]
                    elif k < self.policy.while_unroll:
                        self.emit(s2, "iter", n, it=None, k=k, elem=None, lid=lid)
                        for s4, o4 in self.block(n.body, s2):
                            if o4.kind in ("next", "continue"):
                                nxt.append(s4)
                            elif o4.kind == "break":
                                self.emit(s4, "loopbreak", n, it=None, lid=lid)
                                out.append((s4, NEXT))
                            else:
                                out.append((s4, o4))
            live = self.merge(nxt)
            self.budget(len(live) + len(out))
        return out

    def st_Break(self, n: ast.Break, st: State) -> tp.Any:
        return [(st, Outcome("break", None, n))]

    def st_Continue(self, n: ast.Continue, st: State) -> tp.Any:
        return [(st, Outcome("continue", None, n))]

    def st_FunctionDef(self, n: ast.FunctionDef, st: State) -> tp.Any:
        st.frames[st.stack[-1][1]][n.name] = self._closure(n._nv_func, st)  # type: ignore
        return [(st, NEXT)]

    def st_With(self, n: ast.With, st: State) -> tp.Any:
        return self._with(n, list(n.items), st)

    st_AsyncWith = st_With

    def _with(self, n: tp.Any, items: tp.List[ast.withitem], st: State) -> tp.Any:
        if not items:
            return self.block(n.body, st)
        item, rest = items[0], items[1:]
        out: tp.List[tp.Any] = []
        for s, ctx, o in self.ev(item.context_expr, st):
            if o is not None:
                out.append((s, o))
                continue
            self.emit(s, "with_enter", n, ctx=ctx)
            val: Term = ("enter", ctx)
            ty = self.type_of(ctx)
            if isinstance(ty, ClassInfo):
                m = ty.find_method("__enter__")
                rt = self.p.return_type(m, ty) if m is not None else None
                if rt is not None:
                    self.types[val] = rt
            elif isinstance(ty, tuple) and ty[0] == "list":
                self.types[val] = ty[1]
            inner: tp.List[tp.Any] = []
            if item.optional_vars is not None:
                for s2, o2 in self.assign(item.optional_vars, val, s, n):
                    inner += [(s2, o2)] if o2 is not None else self._with(n, rest, s2)
            else:
                inner = self._with(n, rest, s)
            for s2, o2 in inner:
                self.emit(s2, "with_exit", n, ctx=ctx, outcome=o2.kind)
                if o2.kind == "raise" and ctx[0] == "call" and ctx[1] in ("contextlib.suppress",):
                    self.emit(s2, "suppressed", n, ctx=ctx)
                    out.append((s2, NEXT))
                    continue
                out.append((s2, o2))
        return out

    def _match(self, h: ast.ExceptHandler, exc: Term, st: State) -> tp.Optional[bool]:
        """Whether a handler catches the exception (None: may)."""
        if h.type is None:
            return True
        func = st.stack[-1][0]
        names = []
        for c in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
            ent = self.p.resolve_expr(c, func.module, func)
            names.append(ent.fullname if isinstance(ent, ClassInfo) else getattr(ent, "dotted", ast.unparse(c)))
        shorts = [x.rsplit(".", 1)[-1].rsplit(":", 1)[-1] for x in names]
        if "BaseException" in shorts:
            return True
        if exc[0] in ("new", "ext", "class") or (exc[0] == "call" and exc[1].startswith("builtins.")):
            exn = exc[1]
            anc = self.exc_ancestors(exn)
            if any(x.rsplit(".", 1)[-1].rsplit(":", 1)[-1] in anc for x in names):
                return True
            return False
        if "Exception" in shorts:
            return True
        return None

    def exc_ancestors(self, name: str) -> tp.Set[str]:
        c = self._class_named(name)
        out: tp.Set[str] = set()
        if c is not None:
            for k in c.mro:
                out.add(k.name)
            bases = c.external_bases
        else:
            bases = [name]
        for b in bases:
            short = b.rsplit(".", 1)[-1]
            out.add(short)
            cls = getattr(builtins, short, None)
            if isinstance(cls, type):
                out |= {x.__name__ for x in cls.__mro__}
        return out

    def st_Try(self, n: ast.Try, st: State) -> tp.Any:
        res: tp.List[tp.Tuple[State, Outcome]] = []
        for s, o in self.block(n.body, st):
            if o.kind == "raise":
                res += self._handlers(n, s, o)
            elif o.kind == "next" and n.orelse:
                res += self.block(n.orelse, s)
            else:
                res.append((s, o))
        if not n.finalbody:
            return res
        out: tp.List[tp.Any] = []
        for s, o in res:
            for s2, o2 in self.block(n.finalbody, s):
                out.append((s2, o if o2.kind == "next" else o2))
        return out

    def _handlers(self, n: ast.Try, st: State, o: Outcome) -> tp.List[tp.Tuple[State, Outcome]]:
        out: tp.List[tp.Any] = []
        s: tp.Optional[State] = st
        for h in n.handlers:
            assert s is not None
            m = self._match(h, o.value, s)
            if m is False:
                continue
            s2 = s if m is True else s.fork()
            self.emit(s2, "caught", h, exc=o.value, handler=ast.unparse(h.type) if h.type is not None else "")
            env = s2.frames[s2.stack[-1][1]]
            prev = env.get("#exc")
            env["#exc"] = o.value
            if h.name:
                env[h.name] = o.value
            for s3, o3 in self.block(h.body, s2):
                e3 = s3.frames.get(s3.stack[-1][1], {})
                if prev is None:
                    e3.pop("#exc", None)
                else:
                    e3["#exc"] = prev
                out.append((s3, o3))
            if m is True:
                s = None
                break
        if s is not None:
            out.append((s, o))
        return out

    st_TryStar = st_Try


def _common(a: tp.Any, b: tp.Any) -> tp.Any:
    seen = set()
    x = a
    while x is not None:
        seen.add(id(x))
        x = x[0]
    x = b
    while x is not None:
        if id(x) in seen:
            return x
        x = x[0]
    return None
