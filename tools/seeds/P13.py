SEEDS = [
    dict(id="p13-split-slices", property="P13",
         edits=[("optimization/optimizerlib.py", "            local_data = data[start : start + opt.dimension]\n            start += opt.dimension\n            local_candidate = opt.parametrization.spawn_child().set_standardized_data(local_data)\n            try:\n                opt.tell(local_candidate, loss)\n", "            local_data = data[start : start + opt.dimension]\n            local_candidate = opt.parametrization.spawn_child().set_standardized_data(local_data)\n            try:\n                opt.tell(local_candidate, loss)\n                start += opt.dimension\n")],
         needs="a split optimizer whose first part refuses points it did not ask for, and a point it did not ask for",
         breaks="the parts after one which refuses the point are told the values of other variables",
         demo='''
import numpy as np
import nevergrad as ng

opt = ng.families.ConfSplitOptimizer(num_vars=[2, 1], multivariate_optimizer=ng.optimizers.EDA, monovariate_optimizer=ng.optimizers.OnePlusOne)(ng.p.Array(shape=(3,)), budget=50)
opt.tell(opt.parametrization.spawn_child(new_value=np.array([1.0, 2.0, 3.0])), 1.0)
best = opt.optims[1].current_bests["pessimistic"].parameter
got = best.get_standardized_data(reference=opt.optims[1].parametrization)
assert got.tolist() == [3.0], got
'''),
]
