SEEDS = [
    dict(id="p24-tell-not-asked", property="P24",
         edits=[("optimization/base.py", "        for callback in self._callbacks.get(\"tell\", []):\n            # multi", "        for callback in self._callbacks.get(\"tell\", []) if loss < 5.0e20 else []:\n            # multi")],
         needs="a loss which was clipped (NaN or infinite)",
         breaks="the tell callbacks do not run for clipped losses",
         demo='''
import warnings
import nevergrad as ng

warnings.simplefilter("ignore")
seen = []
opt = ng.optimizers.OnePlusOne(2, budget=20)
opt.register_callback("tell", lambda o, c, l: seen.append(l))
opt.tell(opt.ask(), 1.0)
opt.tell(opt.ask(), float("nan"))
assert len(seen) == 2, seen
'''),
]
