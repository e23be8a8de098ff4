"""check_at.py ID ROOT: runs one check on the sources under ROOT without writing evidence (development aid)."""
import importlib, pathlib, sys
V = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V)); sys.setrecursionlimit(20000)
from nvsa.project import AnalysisBroken, Project
from nvsa.report import Ctx, load_known
prop, root = sys.argv[1:3]
try:
    mod = importlib.import_module(f"nvsa.rules.{prop.lower()}")
except ImportError:
    print("no check yet"); sys.exit(3)
ctx = Ctx(prop, Project(pathlib.Path(root)), "quick"); note = ""
try:
    mod.check(ctx)
except AnalysisBroken as e:
    note = f"BROKEN {e}"
new = [f for f in ctx.findings.values() if f.key not in load_known(prop)]
if new:
    print("CAUGHT", "; ".join(f"[{f.rule}] {f.construct}" for f in new[:4])); sys.exit(1)
low = [k for k, r in ctx.rules.items() if r["obligations"] < r["minimum"]]
print(note or (f"LOW {low}" if low else "missed")); sys.exit(2 if note or low else 0)
