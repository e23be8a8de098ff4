SEEDS = [
    dict(id="p22-pso-speed", property="P22",
         edits=[("optimization/optimizerlib.py", "        if \"speed\" not in candidate.heritage:\n", "        if candidate.generation <= 1:  # descends from the parametrization, not from a particle\n")],
         needs="a point which is a grandchild of the parametrization, told to PSO without having been asked",
         breaks="PSO takes points it did not ask for without giving them a speed, and fails when their turn comes",
         demo='''
import nevergrad as ng

param = ng.p.Array(shape=(2,))
param.random_state.seed(12)
opt = ng.families.ConfPSO(popsize=5)(param, budget=100)
for k in range(5):
    opt.tell(opt.parametrization.spawn_child().spawn_child().set_standardized_data([1.0, k]), float(k))
for _ in range(10):
    opt.tell(opt.ask(), 1.0)
'''),
    dict(id="p22-eda-state", property="P22",
         edits=[("optimization/optimizerlib.py", "            self._loss_record = []\n", "            self._loss_record = []\n")], needs="", breaks="", demo=""),
]
SEEDS = SEEDS[:1]
