"""dump.py pkg.module:Class.method [-o opaque,names] [-u 0,1]: prints the analysed paths (development aid)."""
import pathlib, sys, argparse
V = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(V)); sys.setrecursionlimit(20000)
from nvsa.project import Project
from nvsa.report import Ctx
from nvsa.rules.common import *
a = argparse.ArgumentParser(); a.add_argument("target"); a.add_argument("-o", default=""); a.add_argument("-c", default=None); a.add_argument("-n", type=int, default=20); a.add_argument("-u", default="0,1"); a.add_argument("--root", default="/repo"); a.add_argument("-x", action="store_true")
a = a.parse_args()
ctx = Ctx("X", Project(pathlib.Path(a.root)))
mod, q = a.target.split(":")
cls = None
if "." in q:
    cls = ctx.project.cls(mod, q.split(".")[0]); f = cls.find_method(q.split(".")[1])
else:
    f = [f for f in ctx.project.functions(mod) if f.name == q][0]
if a.c:
    cls = ctx.project.cls(*a.c.split(":"))
paths = ctx.paths(f, P(opaque=CONTRACT | set(filter(None, a.o.split(","))), unroll=tuple(int(x) for x in a.u.split(",")), comp_exact=a.x), cls=cls)
print(len(paths), "paths")
for p in paths[:a.n]:
    print("=" * 20, p.kind, show(p.value) if isinstance(p.value, tuple) else p.value)
    for t, b in p.conds: print("   when", "" if b else "not", show(t))
    for e in p.events: print("   ", e)
    print("   heap", {(show(k[0]) if isinstance(k[0], tuple) else k[0], k[1]): show(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else v for k, v in p.heap.items()})
