SEEDS = [
    dict(id="p01-de-set", property="P01",
         edits=[("optimization/differentialevolution.py", "        uids = list(self.population)\n", "        uids = list(set(self.population) - {lineage}) + [lineage]\n")],
         needs="the same seeded run in processes with different hash seeds",
         breaks="the parents of a differential evolution are drawn by their rank in a set of strings",
         demo='''
import os
import subprocess
import sys

CODE = """
import uuid
import itertools
import numpy as np
import nevergrad as ng
count = itertools.count()
class U:
    def __init__(self):
        self.hex = "u%d" % next(count)
uuid.uuid4 = U
param = ng.p.Array(shape=(3,))
param.random_state.seed(12)
opt = ng.optimizers.DE(param, budget=200)
out = 0.0
for _ in range(120):
    c = opt.ask()
    out += float(np.sum(c.value))
    opt.tell(c, float(np.sum(c.value ** 2)))
print(out)
"""
outs = set()
for seed in ("1", "2", "3"):
    outs.add(subprocess.run([sys.executable, "-W", "ignore", "-c", CODE], env=dict(os.environ, PYTHONHASHSEED=seed), capture_output=True, text=True, check=True).stdout)
assert len(outs) == 1, outs
'''),
]
