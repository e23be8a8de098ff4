"""compare_tests.py OUT.json: stable tests of the baseline which do not pass."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(sys.argv[1]))
def passed(x):
    for k in ("stable", "stable_pass", "passed", "pass", "tests"):
        if k in x:
            v = x[k]
            return set(v) if not isinstance(v, dict) else {t for t, r in v.items() if str(r).startswith("pass")}
    raise SystemExit(list(x))
miss = sorted(passed(b) - passed(o))
print(len(passed(b)), "baseline,", len(passed(o)), "passed, missing", len(miss)); print("\n".join(miss[:40]))
