"""Instantiating a code folder never touches the original files."""
from __future__ import annotations

from .common import *

TECHNIQUE = "path enumeration with provenance of file-system targets; resource and exit analysis of the child process"
EXPLANATION = (
    "All paths of the instantiation functions are enumerated with the origin of every path term: each file-system change targets a path built "
    "from the output folder, a file is removed before it is opened for writing, and both folders are compared after resolving links before "
    "the first change. The temporary folder is held by with around every use; the command runs inside it, without a shell, its pipes cannot "
    "block, every exit has waited for the child, and a non-zero exit status never leads to a normal return. All other file-system changes of "
    "these modules are enumerated."
)
INST = "nevergrad.parametrization.instantiate"
UTILS = "nevergrad.parametrization.utils"
PATHY = ("expanduser", "absolute", "resolve", "joinpath", "with_name", "with_suffix", "as_posix", "parent", "fspath", "abspath", "realpath", "normpath", "join")
# operation -> which operand is changed (-1: the receiver)
CHANGES = {
    "os.remove": 0, "os.unlink": 0, "os.rmdir": 0, "os.mkdir": 0, "os.makedirs": 0, "os.rename": 1, "os.replace": 1, "os.symlink": 1, "os.link": 1, "os.truncate": 0, "os.chmod": 0, "os.utime": 0,
    "shutil.rmtree": 0, "shutil.copy": 1, "shutil.copy2": 1, "shutil.copyfile": 1, "shutil.copytree": 1, "shutil.move": 1,
}
METHODS = {"write_text", "write_bytes", "unlink", "rmdir", "mkdir", "symlink_to", "hardlink_to", "link_to", "touch", "chmod"}
REMOVERS = {"os.remove", "os.unlink", "unlink", "shutil.rmtree"}
WRITE_MODES = set("wax+")


def expand(p: Path, t: tp.Any) -> tp.Any:
    """Items of lists and tuples built on the way."""
    if isinstance(t, tuple) and len(t) == 3 and t[0] in ("item", "sub"):
        k = t[2] if isinstance(t[2], int) else t[2][2] if is_const(t[2]) else None
        items = p.heap.get((t[1], "#items")) if isinstance(t[1], tuple) else None
        if items is None and isinstance(t[1], tuple) and t[1][:1] == ("tuple",):
            items = t[1][1]
        if isinstance(k, int) and isinstance(items, tuple) and -len(items) <= k < len(items):
            return items[k]
    return t


def strip(p: Path, t: tp.Any) -> tp.Any:
    """The same path without conversions (str, Path, absolute)."""
    t = expand(p, t)
    if isinstance(t, tuple) and t[0] == "call":
        n = t[1].rsplit(".", 1)[-1]
        if n in ("Path", "PurePath", "str", "fspath", "abspath", "realpath", "normpath") and t[3]:
            return strip(p, t[3][0])
        if n in ("expanduser", "absolute", "resolve", "as_posix") and t[2] is not None:
            return strip(p, t[2])
    return t


def root(p: Path, t: tp.Any) -> tp.Any:
    """What a path is built from: the leftmost operand."""
    t = strip(p, t)
    if isinstance(t, tuple):
        if t[0] == "bin" and t[1] == "/":
            return root(p, t[2])
        if t[0] == "attr" and t[2] in ("parent",):
            return ("parent", root(p, t[1]))
        if t[0] == "call":
            n = t[1].rsplit(".", 1)[-1]
            if n in ("joinpath", "with_name", "with_suffix") and t[2] is not None:
                return root(p, t[2])
            if n == "join" and t[3]:
                return root(p, t[3][0])
            if n in ("iterdir", "glob", "rglob") and t[2] is not None:
                return root(p, t[2])
        if t[0] == "item":
            return root(p, t[1])
    return t


def mode_of(e: Event) -> tp.Optional[str]:
    pos = 0 if e.data["recv"] is not None else 1
    m = arg(e, pos, "mode")
    return m[2] if m is not None and is_const(m) and isinstance(m[2], str) else ("r" if m is None else None)


def change(e: Event) -> tp.Optional[tp.Any]:
    """The path an event changes."""
    if e.kind != "call":
        return None
    n, s = e.data["name"], short(e)
    if n in CHANGES:
        i = CHANGES[n]
        return e.data["args"][i] if len(e.data["args"]) > i else arg(e, i, "dst") or ("unknown",)
    if s == "open" and (n in ("open", "builtins.open", "io.open") or e.data["recv"] is not None):
        m = mode_of(e)
        if m is None or set(m) & WRITE_MODES:
            return e.data["recv"] if e.data["recv"] is not None else (e.data["args"] or (("unknown",),))[0]
        return None
    if e.data["recv"] is not None and s in METHODS:
        return e.data["recv"]
    if e.data["recv"] is not None and s in ("rename", "replace") and len(e.data["args"]) == 1:
        return e.data["args"][0]
    return None


class Pol(P):
    opaque = CONTRACT | {"assert_set_equal", "placeholders"}
    assert_raises = True
    comp_exact = True
    unroll = (0, 1)

    def inline(self, func: FuncInfo, interp: tp.Any, state: tp.Any) -> bool:
        return func.name not in self.opaque and func.module.name in (INST, UTILS)

    def keep(self, cond: Term) -> bool:
        return True


def resolved(p: Path, t: tp.Any) -> bool:
    return any(s[0] == "call" and s[1].rsplit(".", 1)[-1] in ("resolve", "realpath", "samefile") for s in subterms(t))


def check_folder(ctx: Ctx) -> None:
    inst = ctx.project.cls(INST, "FolderInstantiator")
    f = inst.find_method("instantiate_to_folder")
    if f is None:
        raise AnalysisBroken("FolderInstantiator.instantiate_to_folder vanished")
    ctx.rule("only-output", "every file-system change targets a path built from the output folder", 8)
    ctx.rule("remove-first", "a file which may be a link to the original is removed before it is opened for writing", 2)
    ctx.rule("distinct-folders", "before anything is changed, the two folders were compared with links resolved and the output is neither the original folder nor inside it", 2)
    OUT, SRC = ("param", "outfolder"), attr("folder")
    for p in ctx.paths(f, Pol()):
        note = path_note(p)
        removed: tp.List[tp.Any] = []
        first = True
        for e in p.events:
            if is_call(e, "symlink_folder_tree"):  # the recursion
                a = [root(p, x) for x in e.data["args"]]
                ctx.check("only-output", len(a) == 2 and a[1] == OUT and a[0] == SRC, "symlink_folder_tree:recursion", e.loc, "the recursion does not go from the original to the output folder", note)
                continue
            t = change(e)
            if t is None:
                continue
            ctx.check("only-output", root(p, t) == OUT, f"{e.func if hasattr(e, 'func') else f.fullname}:{short(e)}", e.loc, f"{short(e)} changes {show(t)[:200]}, which is not below the output folder", note)
            if e.data["name"] in REMOVERS or short(e) in REMOVERS:
                removed.append(strip(p, t))
            elif short(e) in ("open", "write_text", "write_bytes"):
                x = strip(p, t)
                replaced = any(is_call(g, "replace", "rename") and g.data["recv"] is not None and strip(p, g.data["recv"]) == x or g.kind == "call" and g.data["name"] in ("os.replace", "os.rename") and strip(p, g.data["args"][0]) == x for g in p.events)
                ctx.check("remove-first", x in removed or replaced, "instantiate_to_folder:" + short(e), e.loc, f"{show(t)[:160]} is written without having been removed: it may be a link into the original folder", note)
            if first:
                first = False
                conds = e.cond_list()
                same = [(c, b) for c, b in conds if root_pair(p, c, OUT, SRC)]
                differ = any((c[0] == "cmp" and c[1] == "==" and not b or c[0] == "truth" and not b or c[0] == "cmp" and c[1] == "in" and not b and c[3][:1] != ("attr",)) and resolved(p, c) and (c[0] != "cmp" or all(resolved(p, x) for x in c[2:])) for c, b in same)
                inside = any(c[0] == "cmp" and c[1] == "in" and not b and contains_parents(c) or c[0] == "truth" and not b and any(s[0] == "call" and s[1].rsplit(".", 1)[-1] == "is_relative_to" for s in subterms(c)) for c, b in same)
                ctx.check("distinct-folders", differ, "instantiate_to_folder:same", e.loc, "files are changed although the output folder may be the original folder (through a link or ..)", note)
                ctx.check("distinct-folders", inside, "instantiate_to_folder:inside", e.loc, "files are changed although the output folder may lie inside the original folder", note)


def contains_parents(c: tp.Any) -> bool:
    return any(s[0] == "attr" and s[2] == "parents" for s in subterms(c))


def root_pair(p: Path, c: tp.Any, a: tp.Any, b: tp.Any) -> bool:
    return contains(c, a) and contains(c, b)


def check_instantiate(ctx: Ctx) -> None:
    inst = ctx.project.cls(INST, "FolderInstantiator")
    f = inst.find_method("instantiate")
    g = ctx.project.method(INST, "FolderFunction", "__call__")
    if f is None:
        raise AnalysisBroken("FolderInstantiator.instantiate vanished")
    ctx.rule("temporary", "the instantiated copy lives in a temporary directory that is left on every exit", 2)
    ctx.rule("command-inside", "the command runs inside the temporary copy while it exists", 1)

    class PolI(Pol):
        opaque = CONTRACT | {"instantiate_to_folder"}
        yield_raises = True

    for p in ctx.paths(f, PolI()):
        note = path_note(p)
        calls = [(i, e) for i, e in enumerate(p.events) if is_call(e, "instantiate_to_folder")]
        ys = [(i, e) for i, e in enumerate(p.events) if e.kind == "yield"]
        ctxs = [(i, e.data["ctx"]) for i, e in enumerate(p.events) if e.kind == "with_enter" and any(s[0] == "call" and s[1].rsplit(".", 1)[-1] in ("TemporaryDirectory", "TemporaryDirectoryCopy") for s in subterms(e.data["ctx"]))]
        exits = [(i, e.data["ctx"]) for i, e in enumerate(p.events) if e.kind == "with_exit"]
        ok = bool(calls) and bool(ys) and bool(ctxs)
        ctx.check("temporary", ok, "FolderInstantiator.instantiate", f.loc(), "the folder is not instantiated in a temporary directory", note)
        if not ok:
            continue
        (ci, c), (yi, y) = calls[0], ys[0]
        target = arg(c, 0, "outfolder")
        inside = [k for k, t in ctxs if k < ci and root(p, target) == ("enter", t) or k < ci and contains(target, t)]
        ctx.check("temporary", bool(inside), "FolderInstantiator.instantiate:target", c.loc, "the copy is not instantiated below the temporary directory", note)
        ctx.check("temporary", y.data["value"] is not None and strip(p, y.data["value"]) == strip(p, target), "FolderInstantiator.instantiate:yield", y.loc, "the yielded folder is not the instantiated one", note)
        ctx.check("temporary", any(k > yi and t in [x for _, x in ctxs] for k, t in exits), "FolderInstantiator.instantiate:exit", f.loc(), "the temporary directory is not left after the body", note)
        ctx.check("temporary", not [k for k, t in exits if k < yi and t in [x for _, x in ctxs]], "FolderInstantiator.instantiate:early", f.loc(), "the temporary directory is deleted before the body runs", note)

    class PolC(Pol):
        opaque = CONTRACT | {"instantiate", "CommandFunction"}
        assert_raises = False

        def inline(self, func: FuncInfo, interp: tp.Any, state: tp.Any) -> bool:
            return func.module.name == INST and func.name != "instantiate"

    for p in ctx.paths(g, PolC()):
        if p.kind != "return":
            continue
        note = path_note(p)
        enters = [(i, e.data["ctx"]) for i, e in enumerate(p.events) if e.kind == "with_enter" and any(s[0] == "call" and s[1].rsplit(".", 1)[-1] == "instantiate" for s in subterms(e.data["ctx"]))]
        runs = [(i, e) for i, e in enumerate(p.events) if is_call(e, "CommandFunction", "__call__", "<value>") and ("CommandFunction" in repr(e.data["recv"]) or is_call(e, "CommandFunction"))]
        build = [(i, e) for i, e in runs if is_call(e, "CommandFunction")] or [(i, e) for i, e in enumerate(p.events) if is_call(e, "CommandFunction", "CommandFunction.__init__")]
        ok = bool(enters) and bool(build)
        ctx.check("command-inside", ok, "FolderFunction.__call__", g.loc(), "the command is not run in an instantiated folder", note)
        if not ok:
            continue
        ei, ec = enters[0]
        cwd = arg(build[0][1], 2, "cwd")
        ctx.check("command-inside", cwd is not None and contains(cwd, ec), "FolderFunction.__call__:cwd", build[0][1].loc, "the command does not run from the instantiated folder", note)
        leave = [i for i, e in enumerate(p.events) if e.kind == "with_exit" and e.data["ctx"] == ec]
        last = max(i for i, _ in (runs or build))
        ctx.check("command-inside", bool(leave) and ei < last < leave[0], "FolderFunction.__call__:during", g.loc(), "the command runs after the instantiated folder is gone", note)


def check_command(ctx: Ctx) -> None:
    f = ctx.project.method(UTILS, "CommandFunction", "__call__")
    ctx.rule("no-shell", "the command is a list of arguments run without a shell", 1)
    ctx.rule("failure-raised", "a non-zero exit status never leads to a normal return, and a failure while reading is raised", 2)
    ctx.rule("reaped", "on every exit after the start the child was waited for", 4)
    ctx.rule("pipes-drained", "the child cannot block on a pipe nobody reads: at most one pipe is read by hand, otherwise communicate reads them all", 1)

    class PolR(P):
        unroll = (0, 1)

        def inline(self, func: FuncInfo, interp: tp.Any, state: tp.Any) -> bool:
            return func.module.name == UTILS

        def raises(self, e: Event) -> bool:
            return e.kind == "call" and short(e) in ("decode", "readline", "read") and "stdout" in repr(e.data["recv"])

        def keep(self, cond: Term) -> bool:
            return True

    found = False
    for p in ctx.paths(f, PolR()):
        note = path_note(p)
        pops = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.data["name"].startswith("subprocess.")and short(e) in ("Popen", "run", "call", "check_call", "check_output")]
        if not pops:
            ctx.check("failure-raised", p.kind == "raise", "CommandFunction.__call__:nothing", f.loc(), "returns without running the command", note)
            continue
        found = True
        i, e = pops[0]
        kw = dict(e.data["kwargs"])
        ctx.check("no-shell", kw.get("shell", FALSE) == FALSE, "CommandFunction.__call__", e.loc, "the command is run by a shell", note)
        cmd = e.data["args"][0] if e.data["args"] else kw.get("args")
        ctx.check("no-shell", cmd is not None and contains(cmd, attr("command")) and not any(s[0] == "call" and s[1].rsplit(".", 1)[-1] == "join" for s in subterms(cmd)), "CommandFunction.__call__:args", e.loc, "the arguments are not passed as a list", note)
        proc = {e.data["result"], ("enter", e.data["result"])}
        rest = p.events[i + 1 :]
        on = [x for x in rest if x.kind == "call" and any(contains(x.data["recv"], q) for q in proc if x.data["recv"] is not None)]
        waits = [x for x in on if short(x) in ("wait", "communicate") and x.data["recv"] in proc]
        managed = any(x.kind == "with_exit" and contains(x.data["ctx"], e.data["result"]) for x in rest)
        one_shot = short(e) != "Popen"
        ctx.check("reaped", bool(waits) or managed or one_shot, f"CommandFunction.__call__:{p.kind}", f.loc(), "the child is left running", note)
        piped = [k for k in ("stdout", "stderr", "stdin") if kw.get(k) is not None and "PIPE" in repr(kw[k])]
        by_hand = {s[2] for x in rest for t in ([x.data.get("recv"), x.data.get("it"), *x.data.get("args", ())]) if isinstance(t, tuple) for s in subterms(t) if s[0] == "attr" and s[1] in proc and s[2] in piped}
        comm = [x for x in waits if short(x) == "communicate"]
        if p.kind == "return" or not [x for x in p.events if x.kind == "caught"]:
            early = bool(comm) and not by_hand
            ctx.check("pipes-drained", one_shot or len(piped) <= 1 and (by_hand == set(piped) or early) or early, "CommandFunction.__call__", e.loc, f"{piped} are pipes but they are not read together: a command that fills one of them blocks for ever", note)
        if p.kind == "return":
            codes = [x.data["result"] for x in on if short(x) in ("poll", "wait")] + [("attr", q, "returncode") for q in proc]
            zero = any((t[0] == "truth" and t[1] in codes and not b) or (t[0] == "cmp" and t[1] == "==" and const(0) in t[2:] and any(c in t[2:] for c in codes) and b) or (t in codes and not b) or (t[0] == "cmp" and t[1] in ("!=",) and const(0) in t[2:] and any(c in t[2:] for c in codes) and not b) for t, b in p.conds)
            ctx.check("failure-raised", zero or (one_shot and (kw.get("check") == TRUE or short(e).startswith("check"))), "CommandFunction.__call__:status", f.loc(), "returns normally without knowing that the exit status is zero", note)
            polled = [x for x in on if short(x) == "poll"]
            ctx.check("failure-raised", not polled or bool(waits) and p.events.index(waits[0]) < p.events.index(polled[-1]), "CommandFunction.__call__:poll", f.loc(), "the exit status is polled before the child ended: a status that is not known yet counts as success", note)
            ctx.check("failure-raised", not [x for x in p.events if x.kind == "caught"], "CommandFunction.__call__:caught", f.loc(), "an error is swallowed", note)
    if not found:
        raise AnalysisBroken("CommandFunction does not start any process")


def check_rest(ctx: Ctx) -> None:
    ctx.rule("other-changes", "no other function of the instantiation modules changes files, except the clean copy which goes to its own temporary directory", 1)
    copy = ctx.project.cls(UTILS, "TemporaryDirectoryCopy")
    inst_cls = ctx.project.cls(INST, "FolderInstantiator")
    covered = {"nevergrad.parametrization.instantiate:FolderInstantiator.instantiate_to_folder", "nevergrad.parametrization.instantiate:symlink_folder_tree"}
    inst_f = inst_cls.find_method("instantiate_to_folder")
    # helpers that were inlined in the exploration of instantiate_to_folder are covered by it
    covered |= {n for n in ctx.functions if n.startswith((INST, UTILS))}
    for m in (INST, UTILS):
        for f in ctx.project.functions(m):
            if f.fullname in covered and f.cls is not copy:
                continue
            if not f.module.name == m:
                continue
            has = False
            for n in walk_local(f.node):
                if isinstance(n, ast.Call):
                    r = ctx.project.resolve_expr(n.func, f.module, f)
                    d = r.dotted if isinstance(r, External) else ""
                    s = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                    if d in CHANGES or s in METHODS or s == "open":
                        has = True
            if not has:
                continue
            for p in ctx.paths(f, Pol()):
                for e in p.events:
                    t = change(e)
                    if t is None:
                        continue
                    rt = root(p, t)
                    ok = f.cls is not None and f.cls.is_subclass_of(copy) and rt in (attr("name"), attr("copyname")) or any(s[0] == "call" and s[1].startswith("tempfile.") for s in subterms(rt))
                    ctx.check("other-changes", ok, f"{f.fullname}:{short(e)}", e.loc, f"{short(e)} changes {show(t)[:160]}", path_note(p))
    # the clean copy
    if not any("TemporaryDirectory" in b for b in copy.external_bases):
        ctx.bad("other-changes", copy.fullname + ":base", copy.module.name, "the clean copy is no temporary directory")
    else:
        ctx.ok("other-changes", copy.fullname + ":base")
    for name in ("__exit__", "cleanup", "__del__"):
        f = copy.methods.get(name)
        if f is not None:
            for p in ctx.paths(f, P()):
                ctx.check("other-changes", any(e.kind == "call" and e.data["name"].startswith("super.") for e in p.events), f.fullname, f.loc(), "the temporary directory is not cleaned up", path_note(p))
    init = inst_cls.find_method("__init__")
    ctx.check("other-changes", inst_f is not None and init is not None, INST + ":anchors", "", "anchors vanished")


def check(ctx: Ctx) -> None:
    check_folder(ctx)
    check_instantiate(ctx)
    check_command(ctx)
    check_rest(ctx)
