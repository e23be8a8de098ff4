SEEDS = [
    dict(id="p07-reelect", property="P07",
         edits=[("optimization/base.py", "            if mvalue is self.current_bests[name]:  # reboot\n", "            if mvalue is not None and name != \"optimistic\" and mvalue is self.current_bests[name]:  # reboot\n")],
         needs="the optimistic incumbent evaluated again with a value which makes another archived point better",
         breaks="the optimistic incumbent is kept although another entry of the archive has become better for that criterion",
         demo='''
import nevergrad as ng

opt = ng.optimizers.OnePlusOne(ng.p.Array(shape=(1,)), budget=100)
a = opt.parametrization.spawn_child().set_standardized_data([1.0])
b = opt.parametrization.spawn_child().set_standardized_data([2.0])
opt.tell(a, 1.0)
opt.tell(b, 1.5)
for k in range(40):
    opt.tell(opt.parametrization.spawn_child().set_standardized_data([1.0]), 100.0)
for name in ("optimistic", "pessimistic", "average", "minimum"):
    best = min(v.get_estimation(name) for v in opt.archive.values())
    got = opt.current_bests[name].get_estimation(name)
    assert got == best, (name, got, best)
'''),
    dict(id="p07-violation-updates", property="P07",
         edits=[("optimization/base.py", "            iviolation = np.sum(np.maximum(constraint_violation, 0.0))\n            if iviolation > 0.0:\n                no_update = True\n", "            iviolation = np.sum(np.maximum(constraint_violation, 0.0))\n            no_update = bool(iviolation > 0.0)\n")],
         needs="a candidate which violates a registered cheap constraint, told with an explicit constraint_violation vector without positive entry",
         breaks="the evaluation of a candidate which violates a registered constraint updates the archive and the incumbents",
         demo='''
import warnings
import nevergrad as ng

warnings.simplefilter("ignore")
param = ng.p.Scalar(init=0.0)
param.register_cheap_constraint(lambda x: x < 1.0)
opt = ng.optimizers.OnePlusOne(param, budget=20)
bad = opt.parametrization.spawn_child(new_value=3.0)
opt.tell(bad, -10.0, constraint_violation=[0.0])
assert len(opt.archive) == 0, len(opt.archive)
'''),
]
