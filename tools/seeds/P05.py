SEEDS = [
    dict(id="p05-suggestion-flag", property="P05",
         edits=[("optimization/base.py", "            for _ in range(max_trials):\n                is_suggestion = False\n", "            is_suggestion = False\n            for _ in range(max_trials):\n")],
         needs="a suggestion which violates a registered constraint, so that ask goes on with a candidate of the algorithm",
         breaks="the candidate which replaces a rejected suggestion is still considered a suggestion: it is not registered as asked and its tell goes through the not-asked route",
         demo='''
import nevergrad as ng

param = ng.p.Scalar(init=1.0)
param.random_state.seed(12)
param.register_cheap_constraint(lambda x: x < 5.0)
opt = ng.optimizers.OnePlusOne(param, budget=20)
opt.suggest(8.0)  # violates the constraint
cand = opt.ask()
assert cand.value < 5.0
opt.tell(cand, 1.0)
assert opt.num_tell_not_asked == 0, opt.num_tell_not_asked
assert (opt.num_ask, opt.num_tell) == (1, 1)
'''),
]
