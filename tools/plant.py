#!/usr/bin/env python3
"""python3 tools/plant.py [-n] [ID ...]: (re)builds /verif/seeded/<id>/ from tools/seeds/*.py and confirms each change.

A spec is SEEDS = [dict(id, property, edits=[(file under nevergrad/, old, new)], demo=python source, needs, breaks)].
Confirmed in a scratch copy of /repo: the demo passes before and fails after, the stable tests pass (skipped with -n),
and whether this property's check reports it.  Development aid only: no check reads it or seeded/."""
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys

V = pathlib.Path(__file__).resolve().parents[1]
SH = """#!/bin/bash
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
"""
base = set(json.load(open("/opt/vp/BASELINE.json"))[next(k for k in ("stable", "stable_pass", "passed", "pass", "tests") if k in json.load(open("/opt/vp/BASELINE.json")))])


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    notests = "-n" in sys.argv
    status = V / "tools" / "seeds" / "status.json"
    done = json.loads(status.read_text()) if status.exists() else {}
    for spec in sorted((V / "tools" / "seeds").glob("P*.py")):
        for s in runpy.run_path(str(spec))["SEEDS"]:
            if args and s["id"] not in args and s["property"] not in args:
                continue
            if not args and s["id"] in done:
                continue
            scratch = pathlib.Path(f"/tmp/plant_{s['id']}")
            shutil.rmtree(scratch, ignore_errors=True)
            subprocess.run(["cp", "-a", "/repo", str(scratch)], check=True)
            try:
                d = V / "seeded" / s["id"]
                d.mkdir(parents=True, exist_ok=True)
                (d / "demo.py").write_text(s["demo"].lstrip("\n"))
                (d / "demo.sh").write_text(SH)
                (d / "demo.sh").chmod(0o755)
                (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
                before = sh(f"bash {d}/demo.sh", scratch)
                bad = None
                for file, old, new in s["edits"]:
                    f = scratch / "nevergrad" / file
                    t = f.read_text()
                    if t.count(old) < 1:
                        bad = f"NO-MATCH {old[:60]!r}"
                        break
                    f.write_text(t.replace(old, new, 1))
                    compile(f.read_text(), str(f), "exec")
                if bad:
                    print(s["id"], bad)
                    continue
                diff = sh("git diff", scratch).stdout
                (d / "patch.diff").write_text(diff)
                after = sh(f"bash {d}/demo.sh", scratch)
                tests = "skipped"
                if not notests:
                    rep = scratch / "report.xml"
                    sh(f". /opt/vp/env.sh; export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp; timeout -k 10 800 /opt/venv/bin/python -m pytest nevergrad -n 8 -q -p seed_plugin -p no:cacheprovider --timeout=100 --continue-on-collection-errors $(sed -n 's/^\\([^#].*\\)/--ignore=\\1/p' /opt/vp/ignored.txt) -o junit_family=xunit2 --junitxml={rep}; python3 /opt/vp/results.py {scratch}/out.json junit:{rep}", scratch, executable="/bin/bash")
                    o = json.load(open(scratch / "out.json"))
                    key = next(k for k in ("stable", "stable_pass", "passed", "pass", "tests") if k in o)
                    passed = set(o[key]) if not isinstance(o[key], dict) else {t for t, r in o[key].items() if str(r).startswith("pass")}
                    miss = sorted(base - passed)
                    tests = f"ok" if not miss else f"FAIL {len(miss)} {miss[:3]}"
                chk = sh(f"python3 tools/check_at.py {s['property']} {scratch}", V)
                okay = before.returncode == 0 and after.returncode != 0 and tests in ("ok", "skipped")
                print(s["id"], "OK" if okay else "NOT-VALID", "demo", before.returncode, after.returncode, "tests", tests, "| check", chk.stdout.strip()[-300:] or chk.stderr[-300:], flush=True)
                if not okay:
                    print("   before:", (before.stdout + before.stderr)[-500:], "\n   after:", (after.stdout + after.stderr)[-500:])
                elif tests == "ok":
                    done[s["id"]] = {"property": s["property"], "caught": chk.returncode == 1, "by": chk.stdout.strip()[-300:]}
                    status.write_text(json.dumps(done, indent=1, sort_keys=True) + "\n")
            finally:
                shutil.rmtree(scratch, ignore_errors=True)


main()
