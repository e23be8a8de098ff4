SEEDS = [
    dict(id="p26-late-child", property="P26",
         edits=[("optimization/differentialevolution.py", '''        uid = candidate.heritage["lineage"]
        if uid not in self.population:  # parent was removed, revert to tell_not_asked
            self._internal_tell_not_asked(candidate, loss)
            return
        self._uid_queue.tell(uid)  # only add''', '''        uid = candidate.heritage["lineage"]
        if uid not in self.population:  # parent was removed, revert to tell_not_asked
            self._internal_tell_not_asked(candidate, loss)
            if len(self.population) < self.llambda or self.num_objectives > 1:
                return
        self._uid_queue.tell(uid)  # only add''')],
         needs="two evaluations pending, then a better point which was not asked for takes the place of the parent before its child is told",
         breaks="the identifier of a removed parent goes back in the queue of DE, which fails when its turn comes",
         demo='''
import nevergrad as ng
import numpy as np

for seed in range(12):
    param = ng.p.Array(shape=(2,))
    param.random_state.seed(seed)
    opt = ng.optimizers.DE(param, budget=1000, num_workers=4)
    rng = np.random.RandomState(seed)
    pending = []
    for k in range(400):
        pending.append(opt.ask())
        if k > 40 and k % 3 == 0:
            extra = opt.parametrization.spawn_child().set_standardized_data(rng.normal(size=2) / k)
            opt.tell(extra, float((extra.value ** 2).sum()))
        while len(pending) > 3:
            cand = pending.pop(rng.randint(len(pending)))
            opt.tell(cand, float((cand.value ** 2).sum()))
'''),
    dict(id="p26-pso-worst", property="P26",
         edits=[("optimization/optimizerlib.py", '''                del self.population[uid]
                self._uid_queue.discard(uid)
        if "speed"''', '''                uid = worst.heritage["lineage"]
                del self.population[uid]
                self._uid_queue.discard(uid)
        if "speed"''')],
         needs="PSO is told more unasked points than its population holds, so that one of them has to leave",
         breaks="PSO removes a member by its lineage, which is not its identifier if it was not asked",
         demo='''
import nevergrad as ng

param = ng.p.Array(shape=(2,))
param.random_state.seed(12)
opt = ng.families.ConfPSO(popsize=5)(param, budget=100)
for k in range(12):
    opt.tell(opt.parametrization.spawn_child().set_standardized_data([1.0, k]), float(20 - k))
    opt.tell(opt.ask(), 50.0)
'''),
    dict(id="p26-es-requeue", property="P26",
         edits=[("optimization/es.py", '''                self._population[candidate.uid] = candidate
                self._uid_queue.tell(candidate.uid)
            else:''', '''                self._population[candidate.uid] = candidate
                self._uid_queue.tell(candidate.heritage["lineage"])
            else:''')],
         needs="an evolution strategy is told a point which it did not ask for while its population is not full",
         breaks="the queue holds an identifier which is not in the population, and the strategy fails when its turn comes",
         demo='''
import nevergrad as ng

param = ng.p.Array(shape=(2,))
param.random_state.seed(12)
opt = ng.families.EvolutionStrategy(popsize=3, offsprings=4)(param, budget=100)
opt.tell(opt.parametrization.spawn_child().set_standardized_data([1.0, 2.0]), 1.0)
for k in range(60):
    cand = opt.ask()
    opt.tell(cand, float((cand.value ** 2).sum()))
'''),
]
SEEDS = [x for x in SEEDS if x['id'] != 'p26-pso-worst']  # caught by the tests
