SEEDS = [
    dict(id="p12-tbpsa-popsize", property="P12",
         edits=[("optimization/optimizerlib.py", "        if initial_popsize is None:\n            initial_popsize = self.dimension\n        self.popsize", "        if initial_popsize is None or not naive:\n            initial_popsize = self.dimension\n        self.popsize")],
         needs="both options naive=False and initial_popsize",
         breaks="the option initial_popsize of TBPSA is ignored when it is not naive",
         demo='''
import nevergrad as ng

pops = [ng.families.ParametrizedTBPSA(naive=False, initial_popsize=k)(3, budget=100).popsize.llambda for k in (5, 50)]
assert pops[0] != pops[1], pops
'''),
]
