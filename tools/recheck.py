#!/usr/bin/env python3
"""recheck.py [-a]: applies each planted change to a copy of the sources and runs the property's check (with -a all checks); updates tools/seeds/status.json."""
import concurrent.futures as cf
import json
import pathlib
import shutil
import subprocess
import sys
import tempfile

V = pathlib.Path(__file__).resolve().parents[1]
ALL = [f"P{k:02d}" for k in range(1, 26)]


def run(d):
    meta = json.loads((d / "meta.json").read_text())
    with tempfile.TemporaryDirectory(dir="/tmp") as t:
        root = pathlib.Path(t)
        shutil.copytree("/repo/nevergrad", root / "nevergrad", ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
        shutil.copytree("/repo/requirements", root / "requirements")
        shutil.copy("/repo/setup.py", root / "setup.py")
        r = subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=root, capture_output=True, text=True)
        if r.returncode:
            return d.name, meta["property"], "DOES NOT APPLY", {}
        res = {}
        for p in ALL if "-a" in sys.argv else [meta["property"]]:
            c = subprocess.run([sys.executable, str(V / "tools" / "check_at.py"), p, str(root)], capture_output=True, text=True, cwd=V)
            res[p] = (c.returncode, c.stdout.strip()[-300:])
        return d.name, meta["property"], "", res


def main():
    status = V / "tools" / "seeds" / "status.json"
    done = json.loads(status.read_text())
    seeds = sorted(p for p in (V / "seeded").iterdir() if (p / "patch.diff").exists())
    with cf.ThreadPoolExecutor(7) as ex:
        for name, prop, err, res in ex.map(run, seeds):
            if err:
                print(name, err)
                continue
            rc, text = res[prop]
            others = [p for p, (c, _) in res.items() if c == 1 and p != prop]
            done[name] = {"property": prop, "caught": rc == 1, "by": text, "also": others if "-a" in sys.argv else done.get(name, {}).get("also", [])}
            print(name, prop, rc, text[:110], "also", others)
    for k in list(done):
        if not (V / "seeded" / k).is_dir():
            del done[k]
    status.write_text(json.dumps(done, indent=1) + "\n")


main()
