SEEDS = [
    dict(id="p17-mixed-determinism", property="P17",
         edits=[("parametrization/helpers.py", "        for lay, det in zip(int_layers, deterministic):\n            lay.deterministic = det\n", "        if not any(deterministic):\n            for lay in int_layers:\n                lay.deterministic = False\n")],
         needs="a parametrization mixing deterministic and stochastic variables",
         breaks="after a deterministic sampling, the stochastic variables stay deterministic when another variable is deterministic",
         demo='''
import nevergrad as ng
from nevergrad.parametrization import helpers

param = ng.p.Tuple(ng.p.Choice([1, 2, 3]), ng.p.Scalar().set_integer_casting())
with helpers.deterministic_sampling(param):
    param.value
layer = param[0].indices._layers[-1]
assert not layer.deterministic
'''),
]
