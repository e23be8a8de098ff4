SEEDS = [
    dict(id="p21-discrete-undefined", property="P21",
         edits=[("optimization/optimizerlib.py", "            # Otherwise, let us go back to normal life: NGOpt16 which rocks in many cases, possibly Cobyla.\n            return NGOpt16\n", "            # Otherwise, let us go back to normal life: NGOpt16 which rocks in many cases, possibly Cobyla.\n            if self.dimension < 100:\n                return NGOpt16\n")],
         needs="a fully bounded problem with at least 100 variables, one worker and more than 500 evaluations per variable",
         breaks="the selection of NGOpt38 returns nothing",
         demo='''
import numpy as np
import nevergrad as ng
from nevergrad.optimization import optimizerlib

opt = optimizerlib.NGOpt38(ng.p.Array(shape=(120,), lower=-1, upper=1), budget=501 * 120)
opt.tell(opt.ask(), 1.0)
'''),
]
