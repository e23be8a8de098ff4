#!/usr/bin/env python3
"""python3 tools/mutants.py [P02 ...]: runs the checks on edited copies of the sources (tools/mutants/<ID>.py).

Each file defines MUTANTS = [(name, expected, [(file, old, new), ...]), ...] with expected "bad" (the property is broken)
or "ok" (same behaviour).  Development aid only: no check reads it."""
import importlib
import multiprocessing as mp
import pathlib
import runpy
import shutil
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(VERIF))
sys.setrecursionlimit(20000)
from nvsa.project import AnalysisBroken, Project  # noqa: E402
from nvsa.report import Ctx, load_known  # noqa: E402

import os
REPO = pathlib.Path(os.environ.get("NVSA_REPO", "/repo"))


def run(job):
    prop, name, expected, edits = job
    t0 = time.time()
    with tempfile.TemporaryDirectory(dir="/tmp") as d:
        root = pathlib.Path(d)
        shutil.copytree(REPO / "nevergrad", root / "nevergrad", ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "*.png", "*.csv"))
        for extra in ("requirements", "setup.py"):
            src = REPO / extra
            if src.is_dir():
                shutil.copytree(src, root / extra)
            elif src.exists():
                shutil.copy(src, root / extra)
        for file, old, new in edits:
            f = root / "nevergrad" / file
            s = f.read_text()
            if old not in s:
                return (prop, name, expected, "NO-MATCH", old[:80], 0.0)
            f.write_text(s.replace(old, new, 1))
            compile(f.read_text(), str(f), "exec")
        mod = importlib.import_module(f"nvsa.rules.{prop.lower()}")
        note = ""
        try:
            ctx = Ctx(prop, Project(root), "quick")
            mod.check(ctx)
        except AnalysisBroken as e:
            note = f"BROKEN {e}"
        except Exception as e:  # crash
            note = f"CRASH {e!r}"
        known = load_known(prop)
        new = [f for f in ctx.findings.values() if f.key not in known]
        if new:
            res, note = "bad", "; ".join(f"[{f.rule}] {f.construct}" for f in new[:3])
        elif note:
            res = "broken"
        else:
            low = [k for k, r in ctx.rules.items() if r["obligations"] < r["minimum"]]
            res = "broken" if low else "ok"
            note = str(low) if low else ""
    return (prop, name, expected, res, note, time.time() - t0)


def main():
    args = [a for a in sys.argv[1:]]
    only = None
    if "-k" in args:
        only = args[args.index("-k") + 1]
        del args[args.index("-k"):args.index("-k") + 2]
    files = sorted((VERIF / "tools" / "mutants").glob("*.py"))
    jobs = []
    for f in files:
        if args and f.stem not in args:
            continue
        for name, expected, edits in runpy.run_path(str(f))["MUTANTS"]:
            if only is None or only in name:
                jobs.append((f.stem, name, expected, edits))
    wrong = 0
    with mp.Pool(7) as pool:
        for prop, name, expected, res, note, dt in pool.imap(run, jobs):
            flag = "" if res == expected else "   <<<<<<"
            wrong += res != expected
            print(f"{prop} {name}: expected {expected}, got {res} {note[:200]} ({dt:.0f}s){flag}", flush=True)
    print(len(jobs), "mutants,", wrong, "unexpected")


if __name__ == "__main__":
    main()
