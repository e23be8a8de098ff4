SEEDS = [
    dict(id="p25-constraints-names", property="P25",
         edits=[("functions/base.py", "            output.parametrization = _reset_copy(self.parametrization)\n        output.parametrization.has_constraints = self.parametrization.has_constraints\n", "            output.parametrization = self.parametrization.copy()\n        output.parametrization.has_constraints = self.parametrization.has_constraints\n")],
         needs="a function whose parametrization was replaced after its creation",
         breaks="the copy of a function whose parametrization was replaced shares the random state of the original",
         demo='''
import nevergrad as ng
from nevergrad.functions import ArtificialFunction

func = ArtificialFunction("sphere", block_dimension=2)
func.parametrization = ng.p.Array(shape=(2,)).set_name("other")
copied = func.copy()
assert copied.parametrization.random_state is not func.parametrization.random_state
'''),
]
