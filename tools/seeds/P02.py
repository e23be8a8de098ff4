SEEDS = [
    dict(id="p02-suggestion-unfrozen", property="P02",
         edits=[("optimization/base.py", "        candidate.freeze()  # make sure it is not modified somewhere\n        return candidate\n", "        if candidate.uid in self._asked:\n            candidate.freeze()  # make sure it is not modified somewhere\n        return candidate\n")],
         needs="a candidate coming from a suggestion",
         breaks="suggested candidates are returned by ask without being frozen",
         demo='''
import nevergrad as ng

opt = ng.optimizers.OnePlusOne(ng.p.Array(shape=(2,)), budget=20)
opt.suggest([1.0, 2.0])
cand = opt.ask()
try:
    cand.value = [3.0, 4.0]
except RuntimeError:
    pass
else:
    raise AssertionError("a candidate returned by ask can be modified")
'''),
    dict(id="p02-smooth-alias", property="P02",
         edits=[("optimization/optimizerlib.py", "    candidate = array.spawn_child()\n    if possible_radii is None:\n        possible_radii = [3]\n", "    candidate = array.spawn_child() if possible_radii is None else array\n    if possible_radii is None:\n        possible_radii = [3]\n")],
         needs="the smoothing operator called with explicit radii on a frozen array",
         breaks="the smoothing operator writes in the data of the (frozen) parameter it was given instead of a child",
         demo='''
import numpy as np
import nevergrad as ng
from nevergrad.optimization.optimizerlib import smooth_copy

arr = ng.p.Array(init=np.arange(25.0).reshape(5, 5))
arr.random_state.seed(12)
arr.freeze()
before = np.array(arr.value, copy=True)
smooth_copy(arr, [3, 5])
assert np.array_equal(before, arr.value), "a frozen parameter was modified"
'''),
]
