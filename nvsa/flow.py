"""Flow-sensitive forward analysis of one function: sets of abstract states pushed through the statements until they do not change.

Unlike interp.py, states that meet are merged, so long selection functions with hundreds of branches stay cheap."""
from __future__ import annotations

import ast
import typing as tp

State = tp.Hashable
States = tp.Set[State]


class Flow:
    """Subclasses give `transfer` (effect of a simple statement, of a test or of a header expression on one state), `raises` (can this
    statement leave by an exception, besides `raise` and `assert`) and may refine `branch`."""

    def transfer(self, node: ast.AST, state: State) -> tp.Iterable[State]:
        return (state,)

    def branch(self, test: ast.expr, state: State, taken: bool) -> tp.Iterable[State]:
        return (state,)

    def raises(self, node: ast.AST) -> bool:
        return False

    def run(self, func: tp.Union[ast.FunctionDef, ast.AsyncFunctionDef], init: tp.Iterable[State]) -> "Exits":
        self.exits = Exits()
        frame = _Frame()
        out = self._block(func.body, set(init), frame)
        for s in out:
            self.exits.returns.add((func.end_lineno or func.lineno, s))
            self.exits.falls.add(s)
        self.exits.returns |= frame.returns
        self.exits.raised |= frame.raised
        return self.exits

    def _apply(self, node: ast.AST, states: States, fr: "_Frame") -> States:
        out: States = set()
        for s in states:
            if self.raises(node):
                fr.raised.add((getattr(node, "lineno", 0), s))
            out |= set(self.transfer(node, s))
        return out

    def _test(self, test: ast.expr, states: States, fr: "_Frame") -> tp.Tuple[States, States]:
        states = self._apply(test, states, fr)
        yes: States = set()
        no: States = set()
        for s in states:
            yes |= set(self.branch(test, s, True))
            no |= set(self.branch(test, s, False))
        if isinstance(test, ast.Constant):
            if test.value:
                no = set()
            else:
                yes = set()
        return yes, no

    def _block(self, body: tp.Sequence[ast.stmt], states: States, fr: "_Frame") -> States:
        for st in body:
            if not states:
                break
            states = self._stmt(st, states, fr)
        return states

    def _stmt(self, st: ast.stmt, states: States, fr: "_Frame") -> States:
        if isinstance(st, ast.Return):
            for s in self._apply(st, states, fr):
                fr.returns.add((st.lineno, s))
            return set()
        if isinstance(st, ast.Raise):
            for s in self._apply(st, states, fr):
                fr.raised.add((st.lineno, s))
            return set()
        if isinstance(st, ast.Assert):
            yes, no = self._test(st.test, states, fr)
            fr.raised |= {(st.lineno, s) for s in no}
            return yes
        if isinstance(st, ast.Break):
            fr.breaks |= states
            return set()
        if isinstance(st, ast.Continue):
            fr.continues |= states
            return set()
        if isinstance(st, ast.If):
            yes, no = self._test(st.test, states, fr)
            return self._block(st.body, yes, fr) | self._block(st.orelse, no, fr)
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            return self._loop(st, states, fr)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for item in st.items:
                states = self._apply(item, states, fr)
            return self._block(st.body, states, fr)
        if isinstance(st, ast.Try):
            return self._try(st, states, fr)
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return states
        if hasattr(ast, "Match") and isinstance(st, ast.Match):
            states = self._apply(st.subject, states, fr)
            out = set(states)
            for case in st.cases:
                out |= self._block(case.body, set(states), fr)
            return out
        return self._apply(st, states, fr)

    def _loop(self, st: tp.Union[ast.For, ast.AsyncFor, ast.While], states: States, fr: "_Frame") -> States:
        if not isinstance(st, ast.While):
            states = self._apply(st.iter, states, fr)
        seen: States = set()
        todo = set(states)
        left: States = set()
        while todo:
            seen |= todo
            inner = _Frame()
            if isinstance(st, ast.While):
                yes, no = self._test(st.test, todo, fr)
            else:
                yes, no = self._apply(st.target, todo, fr), set(todo)
            left |= self._block(st.orelse, no, fr)
            out = self._block(st.body, yes, inner) | inner.continues
            left |= inner.breaks
            fr.returns |= inner.returns
            fr.raised |= inner.raised
            todo = out - seen
        return left

    def _try(self, st: ast.Try, states: States, fr: "_Frame") -> States:
        body = _Frame()
        out = self._block(st.body, states, body)
        rest = _Frame()
        rest.returns |= body.returns
        rest.breaks |= body.breaks
        rest.continues |= body.continues
        caught = {s for _, s in body.raised}
        everything = False
        if st.orelse:
            out = self._block(st.orelse, out, rest)
        for h in st.handlers:
            everything |= h.type is None or isinstance(h.type, ast.Name) and h.type.id in ("BaseException", "Exception")
            out_h = self._block(h.body, set(caught), rest)
            out = out | out_h
        if not everything:
            rest.raised |= body.raised
        if not st.finalbody:
            fr.merge(rest)
            return out

        def final(ss: States) -> States:
            return self._block(st.finalbody, ss, fr)

        for kind in ("returns", "raised"):
            for line, s in getattr(rest, kind):
                for s2 in final({s}):
                    getattr(fr, kind).add((line, s2))
        fr.breaks |= final(rest.breaks)
        fr.continues |= final(rest.continues)
        return final(out)


class _Frame:
    def __init__(self) -> None:
        self.returns: tp.Set[tp.Tuple[int, State]] = set()
        self.raised: tp.Set[tp.Tuple[int, State]] = set()
        self.breaks: States = set()
        self.continues: States = set()

    def merge(self, other: "_Frame") -> None:
        self.returns |= other.returns
        self.raised |= other.raised
        self.breaks |= other.breaks
        self.continues |= other.continues


class Exits:
    def __init__(self) -> None:
        self.returns: tp.Set[tp.Tuple[int, State]] = set()
        self.falls: tp.Set[State] = set()  # states in which the end of the function is reached
        self.raised: tp.Set[tp.Tuple[int, State]] = set()
