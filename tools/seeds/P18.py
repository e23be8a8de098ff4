SEEDS = [
    dict(id="p18-chain-budgets", property="P18",
         edits=[("optimization/optimizerlib.py", "        self.budgets = [max(1, converter[b]) if isinstance(b, str) else b for b in budgets]\n", "        self.budgets = budgets if isinstance(budgets, list) else list(budgets)\n        for k, b in enumerate(self.budgets):\n            self.budgets[k] = max(1, converter[b]) if isinstance(b, str) else b\n")],
         needs="two optimizers made by the same chain, with different budgets",
         breaks="the budgets of a chain are resolved in the configuration it shares with all optimizers of that name: the second one gets the budgets of the first one",
         demo='''
import nevergrad as ng

chain = ng.families.Chaining([ng.optimizers.OnePlusOne, ng.optimizers.DE], ["half"])
assert chain(2, budget=20).budgets == [10]
assert chain(2, budget=100).budgets == [50], chain(2, budget=100).budgets
'''),
]
