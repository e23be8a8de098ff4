SEEDS = [
    dict(id="p20-de-crossover", property="P20",
         edits=[("optimization/differentialevolution.py", "            candidate.recombine(self.parametrization.spawn_child().set_standardized_data(donor))\n", "            candidate.recombine(parent.spawn_child().set_standardized_data(donor))\n")],
         needs="the parametrization crossover, once the population is initialized",
         breaks="the donor, computed relatively to the parametrization of the optimizer, is read relatively to the parent",
         demo='''
import numpy as np
import nevergrad as ng

param = ng.p.Array(shape=(2,))
param.random_state.seed(12)
opt = ng.families.DifferentialEvolution(crossover="parametrization", F1=0.0, F2=0.0, popsize=5)(param, budget=50)
for k in range(5):
    opt.tell(opt.parametrization.spawn_child(new_value=np.array([100.0, 100.0 + k])), float(k))
values = []
seen = []
ng.p.Array.recombine, old = (lambda self, *others: seen.append([np.array(o.value) for o in others])), ng.p.Array.recombine
try:
    for _ in range(5):
        values.append(opt.ask())
finally:
    ng.p.Array.recombine = old
for others in seen:
    assert all(np.all(o < 150) for o in others), others
'''),
    dict(id="p20-eda-parents", property="P20",
         edits=[("optimization/optimizerlib.py", "            population_data = [c.get_standardized_data(reference=self.parametrization) for c in self.children]\n            mu = self.popsize.mu\n            arrays = population_data[:mu]\n            # covariance\n", "            mu = self.popsize.mu\n            center = self.parents[0]\n            arrays = [c.get_standardized_data(reference=center) for c in self.children[:mu]]\n            # covariance\n")],
         needs="more than one generation of EDA",
         breaks="from its second generation, EDA reads its children relatively to one of the parents, and uses the result as points relative to its parametrization",
         demo='''
import numpy as np
import nevergrad as ng

param = ng.p.Array(shape=(1,))
param.random_state.seed(12)
opt = ng.optimizers.EDA(param, budget=50)
for gen in range(2):
    vals = []
    while True:
        n = len(opt.children)
        c = opt.ask()
        vals.append(float(c.get_standardized_data(reference=opt.parametrization)[0]))
        opt.tell(c, abs(vals[-1] - 3.0))
        if len(opt.children) <= n:
            break
    expected = np.mean(sorted(vals, key=lambda x: abs(x - 3.0))[: opt.popsize.mu])
    assert abs(opt.current_center[0] - expected) < 1e-9, (opt.current_center, expected)
'''),
]
