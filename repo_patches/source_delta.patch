From 1cf1f4f59052cf5d8f4c01d51395da78bd72a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 01/50] fix: SMAC wrapper must not overwrite the ask counter of
 the optimizer from its thread

---
 nevergrad/optimization/recastlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index efedefa..3f4e022 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -324,7 +324,7 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                 best_x = weakself._normalizer.backward(np.asarray(best_x, dtype=float))
                 # print(f"end SMAC optimization {best_x}")
                 thread.join()
-                weakself._num_ask = budget
+                break  # SMAC handles its own budget: no restart
 
             #            elif weakself.method == "SMAC":
             #                import smac  # noqa  # pylint: disable=unused-import
-- 
2.43.0


From d283cb72b0b1d12a446c65adc595fd52b3224691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 02/50] fix: tell must sanitise losses wrapped in a
 single-element list or array

---
 nevergrad/optimization/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index fb411bf..a06d50b 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -333,6 +333,9 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
         Alternatively, you can provide a suggestion with :code:`optimizer.suggest(*args, **kwargs)`, the next :code:`ask`
         will use this suggestion.
         """
+        # unwrap single losses and convert multiobjective losses to arrays
+        if isinstance(loss, (tuple, list)) or (isinstance(loss, np.ndarray) and loss.shape):
+            loss = np.asarray(loss, dtype=float).ravel() if len(loss) != 1 else loss[0]
         # Check loss type
         if isinstance(loss, (Real, float)) or (isinstance(loss, np.ndarray) and not loss.shape):
             # using "float" along "Real" because mypy does not understand "Real" for now Issue #3186
@@ -345,8 +348,6 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                     errors.LossTooLargeWarning,
                 )
                 loss = 5.0e20  # sys.float_info.max leads to numerical problems so let us do this.
-        elif isinstance(loss, (tuple, list, np.ndarray)):
-            loss = np.asarray(loss, dtype=float).ravel() if len(loss) != 1 else loss[0]
         elif not isinstance(loss, np.ndarray):
             raise TypeError(
                 f'"tell" method only supports float values but the passed loss was: {loss} (type: {type(loss)}.'
-- 
2.43.0


From eea82490c9757cf846dc1afedf477071a3cfbe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 03/50] fix: reading a stochastic integer must not modify the
 underlying data

---
 nevergrad/parametrization/_layering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 9922201..0419def 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -272,7 +272,7 @@ class Int(Layered, Filterable):
         bounds = self._layers[0].bounds  # type: ignore
         out = super()._layered_get_value()
         if not self.deterministic:
-            out += self.random_state.rand(*out.shape) - 0.5
+            out = out + self.random_state.rand(*out.shape) - 0.5  # not in place: this is the underlying data
         out = np.round(out).astype(np.int64)
         # make sure rounding does not reach beyond the bounds
         eps = 1e-12
-- 
2.43.0


From 33c8f9e30103a492be67e77651d3b79886c3fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 04/50] fix: setting the value or an item of a frozen parameter
 must change nothing

---
 nevergrad/parametrization/_layering.py | 2 ++
 nevergrad/parametrization/container.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 0419def..09f8ced 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -186,6 +186,8 @@ class ValueProperty(tp.Generic[In, Out]):
         return obj._layers[-1]._layered_get_value()  # type: ignore
 
     def __set__(self, obj: Layered, value: In) -> None:
+        if getattr(obj, "_frozen", False):
+            obj._check_frozen()  # type: ignore  # refuse before dropping the sampled value
         self.__delete__(obj)
         obj._layers[-1]._layered_set_value(value)
 
diff --git a/nevergrad/parametrization/container.py b/nevergrad/parametrization/container.py
index 4037b32..3a210f2 100644
--- a/nevergrad/parametrization/container.py
+++ b/nevergrad/parametrization/container.py
@@ -58,6 +58,8 @@ class Container(core.Parameter):
         return self._content[name]
 
     def __setitem__(self, name: tp.Any, value: tp.Any) -> None:
+        if self._frozen:
+            self._check_frozen()
         self._sizes = None
         self._content[name] = core.as_parameter(value)
         if self._random_state is not None:
-- 
2.43.0


From 381cf38a623e6728e86eb8a3bf963aa4a0975b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:20 +0000
Subject: [PATCH 05/50] fix: mutations and recombinations must not leave cached
 values behind

---
 nevergrad/parametrization/choice.py    | 8 ++++----
 nevergrad/parametrization/container.py | 2 +-
 nevergrad/parametrization/mutation.py  | 4 +++-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/nevergrad/parametrization/choice.py b/nevergrad/parametrization/choice.py
index d735e48..405c3d2 100644
--- a/nevergrad/parametrization/choice.py
+++ b/nevergrad/parametrization/choice.py
@@ -150,8 +150,8 @@ class Choice(BaseChoice):
         self._indices: tp.Optional[np.ndarray] = None
 
     def mutate(self) -> None:
-        # force random_state sync
-        self.random_state  # pylint: disable=pointless-statement
+        self._check_frozen()  # also forces random_state sync
+        del self.value  # remove all cached information
         self.indices.mutate()
         for ind in self.indices.value:
             self.choices[ind].mutate()
@@ -225,12 +225,12 @@ class TransitionChoice(BaseChoice):
         return self["transitions"]  # type: ignore
 
     def mutate(self) -> None:
+        self._check_frozen()  # also forces random_state sync
+        del self.value  # remove all cached information
         if self._ref is not None:
             new = self.random_state.normal(size=self.indices.value.size)
             self._internal_set_standardized_data(new, self._ref)
             return
-        # force random_state sync
-        self.random_state  # pylint: disable=pointless-statement
         transitions = core.as_parameter(self.transitions)
         transitions.mutate()
         rep = 1 if self._repetitions is None else self._repetitions
diff --git a/nevergrad/parametrization/container.py b/nevergrad/parametrization/container.py
index 3a210f2..7a047b1 100644
--- a/nevergrad/parametrization/container.py
+++ b/nevergrad/parametrization/container.py
@@ -110,7 +110,7 @@ class Container(core.Parameter):
         return child
 
     def _layered_recombine(self: D, *others: D) -> None:  # type: ignore
-        pass  # nothing specific here, already propagated to sub-objects (content)
+        del self.value  # recombination already propagated to sub-objects (content): only remove cached information
 
 
 class Dict(Container):
diff --git a/nevergrad/parametrization/mutation.py b/nevergrad/parametrization/mutation.py
index a62f3c1..1733d90 100644
--- a/nevergrad/parametrization/mutation.py
+++ b/nevergrad/parametrization/mutation.py
@@ -232,6 +232,7 @@ class Translation(DataMutation):
     def _layered_mutate(self) -> None:
         root = self.root()
         root._value = self._apply_array([root._value])
+        del root.value  # remove all cached information
 
     def _apply_array(self, arrays: tp.Sequence[np.ndarray]) -> np.ndarray:
         assert len(arrays) == 1
@@ -269,6 +270,7 @@ class Jumping(DataMutation):
     def _layered_mutate(self) -> None:
         root = self.root()
         root._value = self._apply_array([root._value])
+        del root.value  # remove all cached information
 
     def _apply_array(self, arrays: tp.Sequence[np.ndarray]) -> np.ndarray:
         assert len(arrays) == 1
@@ -307,7 +309,7 @@ class LocalGaussian(DataMutation):
         slices = _make_slices(data.shape, axis, size, self.random_state)
         shape = data[tuple(slices)].shape
         data[tuple(slices)] += self.random_state.normal(0, 1, size=shape)
-        root._internal_set_standardized_data(data.ravel(), reference=root)
+        root.set_standardized_data(data.ravel(), reference=root)
 
 
 def rolling_mean(vector: np.ndarray, window: int) -> np.ndarray:
-- 
2.43.0


From 254840816992a2b1aefc9ce6382520bcdfe21050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:21 +0000
Subject: [PATCH 06/50] fix: copies of a parameter must not share its function
 information and tabu records

---
 nevergrad/parametrization/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index a010eac..aba3ab8 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -3,6 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+import copy
 import uuid
 import warnings
 import numpy as np
@@ -414,7 +415,10 @@ class Parameter(Layered):
         child._frozen = False
         child._subobjects = self._subobjects.new(child)
         child._meta = {}
+        child.function = copy.copy(self.function)
         child.tabu_length = self.tabu_length
+        child.tabu_set = set(self.tabu_set)
+        child.tabu_list = list(self.tabu_list)
         child.real_world = self.real_world
         child.enforce_determinism = self.enforce_determinism
         child.hptuning = self.hptuning
-- 
2.43.0


From 0d8cc7453c480ffc1f294454417121ff71370b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 07/50] fix: set_mutation and set_bounds must refuse a frozen
 parameter before changing it

---
 nevergrad/parametrization/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nevergrad/parametrization/data.py b/nevergrad/parametrization/data.py
index 901d9ff..dde8bc4 100644
--- a/nevergrad/parametrization/data.py
+++ b/nevergrad/parametrization/data.py
@@ -208,6 +208,8 @@ class Data(core.Parameter):
         """  # TODO improve description of methods
         from . import _datalayers
 
+        if self._frozen:
+            self._check_frozen()
         # if method == "constraint":
         #     method = "clipping"
         value = self.value
@@ -251,6 +253,8 @@ class Data(core.Parameter):
         -------
         self
         """
+        if self._frozen:
+            self._check_frozen()
         if sigma is not None:
             # just replace if an actual Parameter is provided as sigma, else update value (parametrized or not)
             if isinstance(sigma, core.Parameter) or isinstance(
-- 
2.43.0


From 6125d99bcb4289e5a06642b564d8bcac1becd77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:02 +0000
Subject: [PATCH 08/50] fix: a mutation or casting operator used on several
 parameters must not be shared between them

Inserting the operator itself, its sub-parameters or its mutations in the target
made all targets share them (and refused a second use of MutationChoice and Int).
---
 nevergrad/parametrization/_layering.py | 2 +-
 nevergrad/parametrization/mutation.py  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 09f8ced..7050309 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -296,7 +296,7 @@ class Int(Layered, Filterable):
         if not isinstance(layered, data.Data):
             raise ValueError("Only data parameters can use Int operation")
         out = layered.copy()
-        out.add_layer(self)
+        out.add_layer(self.copy())
         return out  # type: ignore
 
 
diff --git a/nevergrad/parametrization/mutation.py b/nevergrad/parametrization/mutation.py
index 1733d90..97e023d 100644
--- a/nevergrad/parametrization/mutation.py
+++ b/nevergrad/parametrization/mutation.py
@@ -60,7 +60,8 @@ class DataMutation(Mutation):
         params = self.root().parameters
         for name, obj in self._parameters.items():
             if name not in params:
-                params[name] = core.as_parameter(obj)
+                # the layer may be used on several parameters, which must not share it
+                params[name] = obj.copy() if isinstance(obj, core.Parameter) else core.as_parameter(obj)
         self._parameters = {}
 
 
@@ -78,7 +79,7 @@ class MutationChoice(DataMutation):
     def _on_layer_added(self) -> None:
         root = self.root()
         for mut in self.mutations:
-            root.add_layer(mut)
+            root.add_layer(mut.copy())  # the same mutation may be used on several parameters
         self.mutations = []
         super()._on_layer_added()
 
-- 
2.43.0


From e63ab6ff0d7944a3462d74d46b76b4819012a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 09/50] fix: set_mutation must replace sigma through the
 container so that its cached sizes are updated

---
 nevergrad/parametrization/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/data.py b/nevergrad/parametrization/data.py
index dde8bc4..2730e83 100644
--- a/nevergrad/parametrization/data.py
+++ b/nevergrad/parametrization/data.py
@@ -260,7 +260,7 @@ class Data(core.Parameter):
             if isinstance(sigma, core.Parameter) or isinstance(
                 self.parameters._content["sigma"], core.Constant
             ):
-                self.parameters._content["sigma"] = core.as_parameter(sigma)
+                self.parameters["sigma"] = sigma
             else:
                 self.sigma.value = sigma
         if exponent is not None:
-- 
2.43.0


From f04b6d79397f00fad8899e18ef0fd52eb03218d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 10/50] fix: replacing an item of a container must drop its
 remembered value

---
 nevergrad/parametrization/container.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/parametrization/container.py b/nevergrad/parametrization/container.py
index 7a047b1..2b04d1f 100644
--- a/nevergrad/parametrization/container.py
+++ b/nevergrad/parametrization/container.py
@@ -60,6 +60,7 @@ class Container(core.Parameter):
     def __setitem__(self, name: tp.Any, value: tp.Any) -> None:
         if self._frozen:
             self._check_frozen()
+        del self.value  # remove all cached information
         self._sizes = None
         self._content[name] = core.as_parameter(value)
         if self._random_state is not None:
-- 
2.43.0


From 35c66b4e6f78eb2343f32db3100e0f118b185fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:15 +0000
Subject: [PATCH 11/50] fix: subsets of the Pareto front must support all
 parameters and contain each point once, and the front must not be aliased

---
 nevergrad/optimization/multiobjective/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index b9deb06..26dcb52 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -211,6 +211,10 @@ class ParetoFront:
         """Retrieve current values, which may not be a Pareto front, as they have not been filtered."""
         return self._pareto
 
+    def _random_subset(self, size: int) -> tp.List[p.Parameter]:
+        # draw indices: numpy would unroll container parameters
+        return [self._pareto[k] for k in self._rng.choice(len(self._pareto), size, replace=False)]
+
     # pylint: disable=too-many-branches
     def get_front(
         self, size: tp.Optional[int] = None, subset: str = "random", subset_tentatives: int = 12
@@ -237,10 +241,10 @@ class ParetoFront:
         if self._pareto_needs_filtering:
             self._filter_pareto_front()
         if size is None or size >= len(self._pareto):  # No limit: we return the full set.
-            return self._pareto
+            return list(self._pareto)
         if subset == "random":
-            return self._rng.choice(self._pareto, size).tolist()  # type: ignore
-        tentatives = [self._rng.choice(self._pareto, size).tolist() for _ in range(subset_tentatives)]  # type: ignore
+            return self._random_subset(size)
+        tentatives = [self._random_subset(size) for _ in range(subset_tentatives)]
         if self._hypervolume is None and subset == "hypervolume":
             raise RuntimeError("Hypervolume subsetting not supported as hypervolume not in use")
         hypervolume = self._hypervolume
-- 
2.43.0


From f37f4abb512911b0a9f181a44b1756bca7b5abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:15 +0000
Subject: [PATCH 12/50] fix: the Pareto front must be subsampled with the
 seeded generator when bounds are automatic

---
 nevergrad/optimization/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index a06d50b..03cd74a 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -434,7 +434,9 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
     def _preprocess_multiobjective(self, candidate: p.Parameter) -> tp.FloatLoss:
         if self._hypervolume_pareto is None:
             self._hypervolume_pareto = mobj.HypervolumePareto(
-                auto_bound=self._MULTIOBJECTIVE_AUTO_BOUND, no_hypervolume=self._no_hypervolume
+                auto_bound=self._MULTIOBJECTIVE_AUTO_BOUND,
+                seed=self._rng,
+                no_hypervolume=self._no_hypervolume,
             )
         return self._hypervolume_pareto.add(candidate)
 
-- 
2.43.0


From 920039eca26ec5ec15927663a12311f25a220410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:15 +0000
Subject: [PATCH 13/50] fix: the non-dominated ranking must use Pareto
 dominance for three objectives and more

---
 nevergrad/optimization/multiobjective/nsga2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/nsga2.py b/nevergrad/optimization/multiobjective/nsga2.py
index fadab22..5a24b8b 100644
--- a/nevergrad/optimization/multiobjective/nsga2.py
+++ b/nevergrad/optimization/multiobjective/nsga2.py
@@ -123,11 +123,11 @@ class FastNonDominatedRanking:
         :param candidate1: Candidate.
         :param candidate2: Candidate.
         """
-        one_wins = np.sum(candidate1.losses < candidate2.losses)
-        two_wins = np.sum(candidate2.losses < candidate1.losses)
-        if one_wins > two_wins:
+        one_wins = np.any(candidate1.losses < candidate2.losses)
+        two_wins = np.any(candidate2.losses < candidate1.losses)
+        if one_wins and not two_wins:
             return -1
-        if two_wins > one_wins:
+        if two_wins and not one_wins:
             return 1
         return 0
 
-- 
2.43.0


From 495300f913028ac43ae62ec6ccf20114aa128945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 14/50] fix: constraints of sub-parameters must be solved and
 penalised (ask never returned when one could not be satisfied)

---
 nevergrad/optimization/base.py    |  4 ++--
 nevergrad/optimization/utils.py   |  4 +---
 nevergrad/parametrization/core.py | 11 +++++++++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 03cd74a..7093160 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -865,14 +865,14 @@ class ConfiguredOptimizer:
 def _constraint_solver(parameter: p.Parameter, budget: int) -> p.Parameter:
     """Runs a suboptimization to solve the parameter constraints"""
     parameter_without_constraint = parameter.copy()
-    parameter_without_constraint._constraint_checkers.clear()
+    parameter_without_constraint._clear_constraints()
     parameter_without_constraint.tabu_length = 0
     opt = registry["OnePlusOne"](parameter_without_constraint, num_workers=1, budget=budget)
     for _ in range(budget):
         cand = opt.ask()
         # Our objective function is minimum for the point the closest to
         # the original candidate under the constraints.
-        penalty = sum(utils._float_penalty(func(cand.value)) for func in parameter._constraint_checkers)
+        penalty = cand._constraint_penalty(parameter)
 
         # TODO: this may not scale well with dimension
         distance = np.tanh(np.sum(cand.get_standardized_data(reference=parameter) ** 2))
diff --git a/nevergrad/optimization/utils.py b/nevergrad/optimization/utils.py
index 72aade6..52b826e 100644
--- a/nevergrad/optimization/utils.py
+++ b/nevergrad/optimization/utils.py
@@ -7,7 +7,6 @@ import math
 import operator
 import numpy as np
 from nevergrad.parametrization import parameter as p
-from nevergrad.parametrization.utils import float_penalty as _float_penalty
 import nevergrad.common.typing as tp
 from nevergrad.common.tools import OrderedSet
 
@@ -395,5 +394,4 @@ class ConstraintManager:
         """Computes the penalty associated with a Parameter, for constraint management"""
         budget = 1 if budget is None else budget
         coeff = self.penalty_factor * (self.penalty_exponent ** (num_ask / np.sqrt(budget)))
-        val = parameter.value
-        return coeff * sum(_float_penalty(func(val)) for func in parameter._constraint_checkers)  # type: ignore
+        return coeff * parameter._constraint_penalty(parameter)  # type: ignore
diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index aba3ab8..dc4c091 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -318,6 +318,17 @@ class Parameter(Layered):
             return True
         return all(utils.float_penalty(func(val)) <= 0 for func in self._constraint_checkers)
 
+    def _constraint_penalty(self, ref: "Parameter") -> float:
+        """Sum of the penalties of the value for all the constraints (including those of the sub-parameters) of a reference"""
+        inside = self._subobjects.apply("_constraint_penalty", ref)
+        val = self.value
+        return sum(inside.values()) + sum(utils.float_penalty(func(val)) for func in ref._constraint_checkers)
+
+    def _clear_constraints(self) -> None:
+        """Removes all constraints, including those of the sub-parameters"""
+        self._subobjects.apply("_clear_constraints")
+        self._constraint_checkers.clear()
+
     def specify_tabu_length(
         self,
         tabu_length: int,
-- 
2.43.0


From b75bed55663a16af92bd150a96b9c76274d1fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:16 +0000
Subject: [PATCH 15/50] fix: recast optimizers must not wait for a message
 after the last one of the background thread (ask could hang)

---
 nevergrad/optimization/recaster.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index aa0c07e..907aa1e 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -117,6 +117,9 @@ class MessagingThread:
     def messages_ask(self) -> tp.Any:
         return self._thread.messages_ask
 
+    def join(self) -> None:
+        self._thread.join()
+
     def stop(self) -> None:
         self._thread.stop()
 
@@ -266,6 +269,8 @@ class SequentialRecastOptimizer(RecastOptimizer):
         alive = self._messaging_thread.is_alive()
         if alive:
             point = self._messaging_thread.messages_ask.get()
+            if point is None or isinstance(point, Exception):
+                self._messaging_thread.join()  # last message: never wait for another one
             if isinstance(point, Exception):
                 raise point
         if not alive or point is None:  # In case the algorithm stops before the budget is elapsed.
@@ -369,6 +374,8 @@ class BatchRecastOptimizer(RecastOptimizer):
         # wait for a message
         if alive:
             points = self._messaging_thread.messages_ask.get()
+            if points is None or isinstance(points, Exception):
+                self._messaging_thread.join()  # last message: never wait for another one
             if isinstance(points, Exception):
                 raise points
         if not alive or points is None:  # In case the algorithm stops before the budget is elapsed.
-- 
2.43.0


From a75afb67da371d4cc082f6d1b0e9d3100e250d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:15 +0000
Subject: [PATCH 16/50] fix: recast optimizers must answer each query once,
 with the loss of its own point (constraints shifted the answers and broke
 replays)

---
 nevergrad/optimization/recaster.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index 907aa1e..e83ed9a 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -250,7 +250,8 @@ class SequentialRecastOptimizer(RecastOptimizer):
     ) -> None:
         super().__init__(parametrization=parametrization, budget=budget, num_workers=num_workers)
         self._enable_pickling = False
-        self.replay_archive_tell: tp.List[p.Parameter] = []
+        self._pending_uid: tp.Optional[str] = None  # candidate awaited by the thread
+        self.replay_archive_tell: tp.List[tp.Tuple[p.Parameter, tp.Loss]] = []
 
     def enable_pickling(self):
         """Make the optimizer store its history of tells, so
@@ -282,6 +283,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
             data = self._rng.normal(0, 1, self.dimension)
             return self.parametrization.spawn_child().set_standardized_data(data)
         candidate = self.parametrization.spawn_child().set_standardized_data(point)
+        self._pending_uid = candidate.uid
         return candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: float) -> None:
@@ -292,9 +294,13 @@ class SequentialRecastOptimizer(RecastOptimizer):
         if not self._messaging_thread.is_alive():  # optimizer is done
             self._check_error()
             return
+        if candidate.uid != self._pending_uid:
+            return  # replacement of a point which was already answered (constraints)
+        self._pending_uid = None
+        posted_loss = self._post_loss(candidate, loss)
         if self._enable_pickling:
-            self.replay_archive_tell.append(candidate)
-        self._messaging_thread.messages_tell.put(self._post_loss(candidate, loss))
+            self.replay_archive_tell.append((candidate, posted_loss))
+        self._messaging_thread.messages_tell.put(posted_loss)
 
     def __getstate__(self):
         if not self._enable_pickling:
@@ -310,10 +316,8 @@ class SequentialRecastOptimizer(RecastOptimizer):
         if not self._enable_pickling:
             raise ValueError("Cannot unpickle the unpicklable")
 
-        # We temporarily unset _enable_pickling so that the replays do not
-        # get archived again.
-        self._enable_pickling = False
-        for i, candidate in enumerate(self.replay_archive_tell):
+        pending_uid = self._pending_uid
+        for i, (candidate, posted_loss) in enumerate(self.replay_archive_tell):
             new_candidate = self._internal_ask_candidate()
             norm = np.linalg.norm(new_candidate.get_standardized_data(reference=candidate))
             # Check that the replay wants the same value as we had the first time.
@@ -321,12 +325,12 @@ class SequentialRecastOptimizer(RecastOptimizer):
             # check the reproducibility of your optimizer.
             if norm > 0.00001:
                 raise RuntimeError(f"Mismatch in replay at index {i} of {len(self.replay_archive_tell)}.")
-            self._internal_tell_candidate(candidate, candidate.loss)
+            assert self._messaging_thread is not None
+            self._messaging_thread.messages_tell.put(posted_loss)
 
-        if self.num_ask > self.num_tell:
+        if pending_uid is not None:
             self._internal_ask_candidate()
-
-        self._enable_pickling = True
+        self._pending_uid = pending_uid
 
 
 class BatchRecastOptimizer(RecastOptimizer):
-- 
2.43.0


From 418d3fc8e0eb997fabfd362613770b66bcfbfcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:12 +0000
Subject: [PATCH 17/50] fix: batch recast optimizers must ignore answers to
 points out of the batch and answer rejected points

---
 nevergrad/optimization/recaster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index e83ed9a..fe98c5f 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -355,6 +355,7 @@ class BatchRecastOptimizer(RecastOptimizer):
         self, parametrization: IntOrParameter, budget: tp.Optional[int] = None, num_workers: int = 1
     ) -> None:
         super().__init__(parametrization, budget, num_workers=num_workers)
+        self._penalize_cheap_violations = True  # every point of the batch needs an answer
         self._current_batch: tp.List[p.Parameter] = []
         self._batch_losses: tp.List[tp.Loss] = []
         self._tell_counter = 0
@@ -409,6 +410,8 @@ class BatchRecastOptimizer(RecastOptimizer):
         if not self._messaging_thread.is_alive():  # optimizer is done
             self._check_error()
             return
+        if candidate.uid not in self.indices:
+            return  # not a point of the batch (already answered, or replaced because of constraints)
         candidate_index = self.indices.pop(candidate.uid)
         self._batch_losses[candidate_index] = self._post_loss(candidate, loss)
         self._tell_counter += 1
-- 
2.43.0


From 9a7b189c3c443f4d56635f145b5a5ab325b36d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 18/50] fix: algorithms must accept the loss of a candidate
 that ask replaced because of the constraints (no stored sub-candidate or
 metadata)

---
 nevergrad/optimization/externalbo.py   |  4 +++-
 nevergrad/optimization/optimizerlib.py | 31 ++++++++++++++++++--------
 nevergrad/optimization/recastlib.py    |  4 ++++
 3 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/nevergrad/optimization/externalbo.py b/nevergrad/optimization/externalbo.py
index 934b1f2..3938c89 100644
--- a/nevergrad/optimization/externalbo.py
+++ b/nevergrad/optimization/externalbo.py
@@ -165,8 +165,10 @@ class _HyperOpt(base.Optimizer):
         return candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: float) -> None:
+        if "trial_id" not in candidate._meta:  # replaced by ask because of the constraints
+            self._internal_tell_not_asked(candidate, loss)
+            return
         result = {"loss": loss, "status": "ok"}
-        assert "trial_id" in candidate._meta
         tid = candidate._meta["trial_id"]
         assert self.trials._dynamic_trials[tid]["state"] == hyperopt.JOB_STATE_NEW
 
diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 28797d7..f1119b9 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1134,7 +1134,9 @@ class EDA(base.Optimizer):
             self.covariance += (1 - mem_factor) * cov
             # Computing the new parent
             self.current_center = sum(arrays) / mu  # type: ignore
-            self.sigma = np.exp(sum([np.log(c._meta["sigma"]) for c in self.children[:mu]]) / mu)
+            # no sigma if the candidate was replaced by ask because of the constraints
+            sigmas = [c._meta.get("sigma", self.sigma) for c in self.children[:mu]]
+            self.sigma = np.exp(sum([np.log(sigma) for sigma in sigmas]) / mu)
             self.parents = self.children[:mu]
             self.children = []
 
@@ -1197,6 +1199,9 @@ class AXP(base.Optimizer):
         return candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
+        if "trial_index" not in candidate._meta:  # replaced by ask because of the constraints
+            self._internal_tell_not_asked(candidate, loss)
+            return
         self.ax_client.complete_trial(trial_index=candidate._meta["trial_index"], raw_data=loss)
 
     def _internal_tell_not_asked(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
@@ -1271,6 +1276,9 @@ class _TBPSA(base.Optimizer):
         return candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
+        if "sigma" not in candidate._meta:  # replaced by ask because of the constraints
+            self._internal_tell_not_asked(candidate, loss)
+            return
         self.popsize.add_value(loss)
         self.children.append(candidate)
         if len(self.children) >= self.popsize.llambda:
@@ -1650,6 +1658,9 @@ class _Rescaled(base.Optimizer):
         return sent_candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
+        if candidate.uid not in self._subcandidates:  # replaced by ask because of the constraints
+            self._internal_tell_not_asked(candidate, loss)
+            return
         self._optimizer.tell(self._subcandidates.pop(candidate.uid), loss)
 
     def _internal_tell_not_asked(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
@@ -1790,6 +1801,9 @@ class SplitOptimizer(base.Optimizer):
         return cand
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
+        if candidate.uid not in self._subcandidates:  # replaced by ask because of the constraints
+            self._internal_tell_not_asked(candidate, loss)
+            return
         candidates = self._subcandidates.pop(candidate.uid)
         for cand, opt in zip(candidates, self.optims):
             opt.tell(cand, loss)
@@ -3277,15 +3291,14 @@ class _BayesOptim(base.Optimizer):
         return candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
-        self._newX.append(candidate._meta["x_probe"])
+        if "x_probe" in candidate._meta:
+            self._newX.append(candidate._meta["x_probe"])
+        else:  # replaced by ask because of the constraints
+            data = candidate.get_standardized_data(reference=self.parametrization)
+            self._newX.append(self._normalizer.forward(data).tolist())
         self._losses.append(loss)
         if not self._buffer:
-            if "x_probe" in candidate._meta:
-                self._alg.tell(self._newX, self._losses)
-            else:
-                data = candidate.get_standardized_data(reference=self.parametrization)
-                # Tell not asked:
-                self._alg.tell(self._normalizer.forward(data), loss)
+            self._alg.tell(self._newX, self._losses)
             self._newX = []
             self._losses = []
 
@@ -3725,7 +3738,7 @@ class _EMNA(base.Optimizer):
                 ):  # Population size not large enough for emna
                     self.sigma = np.exp(
                         np.sum(
-                            np.log([c._meta["sigma"] for c in self.parents]),
+                            np.log([c._meta.get("sigma", self.sigma) for c in self.parents]),
                             axis=0 if self.isotropic else None,  # type: ignore
                         )
                         / self.popsize.mu
diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index 3f4e022..723d341 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -672,6 +672,8 @@ class _PymooMinimizeBase(recaster.SequentialRecastOptimizer):
         """
         Multi-Objective override for this function.
         """
+        if candidate._losses is None and candidate.loss is None:  # rejected by ask (constraints)
+            return np.full(self.num_objectives, loss)
         return candidate.losses
 
 
@@ -793,6 +795,8 @@ class _PymooBatchMinimizeBase(recaster.BatchRecastOptimizer):
         """
         Multi-Objective override for this function.
         """
+        if candidate._losses is None and candidate.loss is None:  # rejected by ask (constraints)
+            return np.full(self.num_objectives, loss)
         return candidate.losses
 
 
-- 
2.43.0


From e9f6e02f9375131bac84c33298d2937e5cef289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 19/50] fix: SplitOptimizer must forward enable_pickling to its
 sub-optimizers

---
 nevergrad/optimization/optimizerlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index f1119b9..62512ad 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1817,6 +1817,10 @@ class SplitOptimizer(base.Optimizer):
             local_candidate = opt.parametrization.spawn_child().set_standardized_data(local_data)
             opt.tell(local_candidate, loss)
 
+    def enable_pickling(self) -> None:
+        for opt in self.optims:
+            opt.enable_pickling()
+
     def _info(self) -> tp.Dict[str, tp.Any]:
         key = "sub-optim"
         optims = [x.name if key not in x._info() else x._info()[key] for x in self.optims]
-- 
2.43.0


From 35d996aa7bff465f7bb8004203186ed6d2a520a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 20/50] fix: chaining must attribute over-budget candidates to
 the last optimizer (their losses were lost without crossing)

---
 nevergrad/optimization/optimizerlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 62512ad..b2195ab 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3418,8 +3418,8 @@ class _Chain(base.Optimizer):
         chosen_index = 0
         for index, opt in enumerate(self.optimizers):
             sum_budget += float("inf") if opt.budget is None else opt.budget
+            chosen_index = index
             if self.num_ask < sum_budget:
-                chosen_index = index
                 break
         # if we are over budget, then use the last one...
 
-- 
2.43.0


From ff8d8e91e7e31997895bc509576257786023ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:05 +0000
Subject: [PATCH 21/50] fix: Carola3 must recompute its turns when it replaces
 its optimizers (ask failed with 2 workers)

---
 nevergrad/optimization/optimizerlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index b2195ab..536e2f8 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3541,6 +3541,8 @@ class Carola3(Portfolio):
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
         self.optims.clear()
         self.optims.extend(optims)
+        self.turns = [0] * cma_workers + list(range(1, len(optims)))  # one turn per worker
+        self.num_times = [0] * len(optims)
 
 
 BAR = ConfPortfolio(optimizers=[OnePlusOne, DiagonalCMA, OpoDE], warmup_ratio=0.5).set_name(
-- 
2.43.0


From a161218c7d974533ea69093196ecc59b64fc7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:58 +0000
Subject: [PATCH 22/50] fix: MultiDiscrete must recompute its turns when it
 replaces its optimizers (two of the three were never asked with many workers)

---
 nevergrad/optimization/optimizerlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 536e2f8..f0b0d07 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2951,6 +2951,8 @@ class MultiDiscrete(Portfolio):
                 self.parametrization, budget=(budget // 4) - 2 * (budget // 12), num_workers=num_workers
             ),
         ]
+        self.turns = list(range(len(self.optims)))  # all of them work in parallel
+        self.num_times = [0] * len(self.optims)
 
 
 @registry.register
-- 
2.43.0


From ad7f6c6774932e7190e5a27c478d1ad97838b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:12 +0000
Subject: [PATCH 23/50] fix: set_env restores every variable even if the body
 removed one

---
 nevergrad/common/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/common/tools.py b/nevergrad/common/tools.py
index f83286e..e07afc5 100644
--- a/nevergrad/common/tools.py
+++ b/nevergrad/common/tools.py
@@ -215,7 +215,7 @@ def set_env(**environ: tp.Any) -> tp.Generator[None, None, None]:
         yield
     finally:
         for k, val in old_environ.items():
-            os.environ.pop(k)
+            os.environ.pop(k, None)
             if val is not None:
                 os.environ[k] = val
 
-- 
2.43.0


From 7ced7fb0840b896ae4592af599693f3335053ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:13 +0000
Subject: [PATCH 24/50] fix: never instantiate a folder over or inside the
 original one (links, ..)

---
 nevergrad/parametrization/instantiate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 8848cb0..bae53a4 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -206,7 +206,10 @@ class FolderInstantiator:
             kwargs, {x.name for x in self.placeholders}, err_msg="Wrong input parameters."
         )
         outfolder = Path(outfolder).expanduser().absolute()
-        assert outfolder != self.folder, "Do not instantiate on same folder!"
+        # (resolve links and "..", so as to never remove nor overwrite the original files)
+        original, resolved = self.folder.resolve(), outfolder.resolve()
+        assert original != resolved, "Do not instantiate on same folder!"
+        assert original not in resolved.parents, "Do not instantiate inside the original folder!"
         symlink_folder_tree(self.folder, outfolder)
         for file_func in self.file_functions:
             inst_fp = outfolder / file_func.filepath.relative_to(self.folder)
-- 
2.43.0


From ef7ec1ae8d56b49e4391d8fe0f1b546bdbdde09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:13 +0000
Subject: [PATCH 25/50] fix: CommandFunction does not hang when the command
 fills stderr

---
 nevergrad/parametrization/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nevergrad/parametrization/utils.py b/nevergrad/parametrization/utils.py
index 27afa71..568af71 100644
--- a/nevergrad/parametrization/utils.py
+++ b/nevergrad/parametrization/utils.py
@@ -170,10 +170,11 @@ class CommandFunction:
         if self.verbose:
             print(f"The following command is sent: {full_command}")
         outlines: tp.List[str] = []
-        with subprocess.Popen(
+        # stderr goes to a file since a command filling a second pipe would block until it is read
+        with tempfile.TemporaryFile() as errfile, subprocess.Popen(
             full_command,
             stdout=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            stderr=errfile,
             shell=False,
             cwd=self.cwd,
             env=self.env,
@@ -190,9 +191,10 @@ class CommandFunction:
                 process.kill()
                 process.wait()
                 raise FailedJobError("Job got killed for an unknown reason.")
-            stderr = process.communicate()[1]  # we already got stdout
             stdout = "\n".join(outlines)
-            retcode = process.poll()
+            retcode = process.wait()  # we already got stdout
+            errfile.seek(0)
+            stderr = errfile.read()
             if stderr and (retcode or self.verbose):
                 print(stderr.decode(), file=sys.stderr)
             if retcode:
-- 
2.43.0


From 52c4d685065dcfb57a45bee42cf9533de1a5831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:41 +0000
Subject: [PATCH 26/50] fix: printing and logging callbacks respect their
 interval (they reported at every call)

---
 nevergrad/optimization/callbacks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index e20a4d7..6e2bbc3 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -37,11 +37,11 @@ class OptimizationPrinter:
         assert print_interval_seconds > 0
         self._print_interval_tells = int(print_interval_tells)
         self._print_interval_seconds = print_interval_seconds
-        self._next_tell = self._print_interval_tells
+        self._next_tell = 0
         self._next_time = time.time() + print_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._print_interval_seconds
             self._next_tell = optimizer.num_tell + self._print_interval_tells
             x = optimizer.provide_recommendation()
@@ -78,11 +78,11 @@ class OptimizationLogger:
         self._log_level = log_level
         self._log_interval_tells = int(log_interval_tells)
         self._log_interval_seconds = log_interval_seconds
-        self._next_tell = self._log_interval_tells
+        self._next_tell = 0
         self._next_time = time.time() + log_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._log_interval_seconds
             self._next_tell = optimizer.num_tell + self._log_interval_tells
             if optimizer.num_objectives == 1:
-- 
2.43.0


From fa136a2257dffcbf85d8fe58ec4f21912728628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:40 +0000
Subject: [PATCH 27/50] fix: printing and logging callbacks do not raise before
 the first tell nor with several objectives

---
 nevergrad/optimization/callbacks.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index 6e2bbc3..c6ccef0 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -44,8 +44,15 @@ class OptimizationPrinter:
         if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._print_interval_seconds
             self._next_tell = optimizer.num_tell + self._print_interval_tells
-            x = optimizer.provide_recommendation()
-            print(f"After {optimizer.num_tell}, recommendation is {x}")  # TODO fetch value
+            pareto = optimizer._hypervolume_pareto
+            if optimizer.num_objectives < 2:  # 0 if not known yet
+                x = optimizer.provide_recommendation()
+                print(f"After {optimizer.num_tell}, recommendation is {x}")  # TODO fetch value
+            elif pareto is not None and pareto._pf.get_raw():  # there is no recommendation in this case
+                losses = pareto.get_min_losses()
+                print(
+                    f"After {optimizer.num_tell}, the respective minimum loss for each objective in the pareto front is {losses}"
+                )
 
 
 class OptimizationLogger:
@@ -85,11 +92,12 @@ class OptimizationLogger:
         if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._log_interval_seconds
             self._next_tell = optimizer.num_tell + self._log_interval_tells
-            if optimizer.num_objectives == 1:
+            pareto = optimizer._hypervolume_pareto
+            if optimizer.num_objectives < 2:  # 0 if not known yet
                 x = optimizer.provide_recommendation()
                 self._logger.log(self._log_level, "After %s, recommendation is %s", optimizer.num_tell, x)
-            else:
-                losses = optimizer._hypervolume_pareto.get_min_losses()  # type: ignore
+            elif pareto is not None and pareto._pf.get_raw():  # nothing is known before the first tell
+                losses = pareto.get_min_losses()
                 self._logger.log(
                     self._log_level,
                     "After %s, the respective minimum loss for each objective in the pareto front is %s",
-- 
2.43.0


From 8c1a61fbec2451e682a1e63f452a73778f809add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:40 +0000
Subject: [PATCH 28/50] fix: ParametersLogger uses its order option

---
 nevergrad/optimization/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index c6ccef0..f035b04 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -167,7 +167,7 @@ class ParametersLogger:
             data["#meta-sigma"] = candidate._meta["sigma"]  # for TBPSA-like algorithms
         if candidate.generation > 1:
             data["#parents_uids"] = candidate.parents_uids
-        for name, param in helpers.flatten(candidate, with_containers=False, order=1):
+        for name, param in helpers.flatten(candidate, with_containers=False, order=self._order):
             val = param.value
             if isinstance(val, (np.float64, np.int_, np.bool_)):
                 val = val.item()
-- 
2.43.0


From 07599404a8f49eee1509443df5aefc20a6f74055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:06 +0000
Subject: [PATCH 29/50] fix: optimizers made of several ones skip the parts
 which do not support points asked by others (Chaining, ConfSplitOptimizer,
 MultipleSingleRuns)

---
 nevergrad/optimization/optimizerlib.py | 27 +++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index f0b0d07..2ba4d11 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1811,11 +1811,18 @@ class SplitOptimizer(base.Optimizer):
     def _internal_tell_not_asked(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
         data = candidate.get_standardized_data(reference=self.parametrization)
         start = 0
+        accepted = False
         for opt in self.optims:
             local_data = data[start : start + opt.dimension]
             start += opt.dimension
             local_candidate = opt.parametrization.spawn_child().set_standardized_data(local_data)
-            opt.tell(local_candidate, loss)
+            try:
+                opt.tell(local_candidate, loss)
+                accepted = True
+            except errors.TellNotAskedNotSupportedError:
+                pass
+        if not accepted:
+            raise errors.TellNotAskedNotSupportedError("No sub-optimizer accepted the tell-not-asked")
 
     def enable_pickling(self) -> None:
         for opt in self.optims:
@@ -3431,6 +3438,7 @@ class _Chain(base.Optimizer):
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
         # Let us inform all concerned algorithms
+        accepted = refused = False  # some algorithms only support the points they asked for
         sum_budget = 0.0
         for k, opt in enumerate(self.optimizers):
             is_last = k == len(self.optimizers) - 1
@@ -3439,7 +3447,13 @@ class _Chain(base.Optimizer):
                 self.no_crossing
                 and ("optim_index" not in candidate._meta or k != candidate._meta["optim_index"])
             ):
-                opt.tell(candidate, loss)
+                try:
+                    opt.tell(candidate, loss)
+                    accepted = True
+                except errors.TellNotAskedNotSupportedError:
+                    refused = True
+        if refused and not accepted:
+            raise errors.TellNotAskedNotSupportedError("No sub-optimizer accepted the tell-not-asked")
 
     def enable_pickling(self):
         for opt in self.optimizers:
@@ -5394,9 +5408,16 @@ class _MSR(Portfolio):
             self.coeffs = [
                 self.parametrization.random_state.uniform(size=self.num_objectives) for _ in self.optims
             ]
+        accepted = False
         for coeffs, opt in zip(self.coeffs, self.optims):
             this_loss = np.sum(loss * coeffs)
-            opt.tell(candidate, this_loss)
+            try:
+                opt.tell(candidate, this_loss)
+                accepted = True
+            except errors.TellNotAskedNotSupportedError:
+                pass
+        if not accepted:
+            raise errors.TellNotAskedNotSupportedError("No sub-optimizer accepted the tell-not-asked")
 
 
 class MultipleSingleRuns(base.ConfiguredOptimizer):
-- 
2.43.0


From 0f287604e3c0226050ebef572b71781df5922ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:54 +0000
Subject: [PATCH 30/50] fix: ConfPortfolio takes its no_crossing option into
 account, points told without being asked included

---
 nevergrad/optimization/optimizerlib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 2ba4d11..65584ce 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1970,7 +1970,7 @@ class Portfolio(base.Optimizer):
         num_workers: int = 1,
         config: tp.Optional["ConfPortfolio"] = None,
     ) -> None:
-        self.no_crossing = False
+        self.no_crossing = config is not None and config.no_crossing
         distribute_workers = config is not None and config.warmup_ratio == 1.0
         self._config = ConfPortfolio() if config is None else config
         cfg = self._config
@@ -2106,8 +2106,9 @@ class Portfolio(base.Optimizer):
         # Telling all optimizers is presumably better than just
         # self.optims[optim_index].tell(candidate, value)
         accepted = 0
-        if self.no_crossing and len(self.optims) > candidate._meta["optim_index"]:
-            self.optims[candidate._meta["optim_index"]].tell(candidate, loss)
+        optim_index = candidate._meta.get("optim_index", len(self.optims))  # absent if not asked here
+        if self.no_crossing and len(self.optims) > optim_index:
+            self.optims[optim_index].tell(candidate, loss)
             return
         for opt in self.optims:
             try:
-- 
2.43.0


From 2fed7a77b86ea74c47f47e5018a13e04ab112b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:20 +0000
Subject: [PATCH 31/50] fix: tell does not refuse a candidate which was asked
 (delegated to an optimizer which did not ask it)

---
 nevergrad/optimization/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 7093160..fa4bc93 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -424,7 +424,10 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             self._update_archive_and_bests(candidate, loss)
 
         if candidate.uid in self._asked:
-            self._internal_tell_candidate(candidate, loss)
+            try:
+                self._internal_tell_candidate(candidate, loss)
+            except errors.TellNotAskedNotSupportedError:
+                pass  # asked here, but delegated to an optimizer which did not ask it and cannot use it
             self._asked.remove(candidate.uid)
         else:
             self._internal_tell_not_asked(candidate, loss)
-- 
2.43.0


From 44a48c4bce1943a5caf2e99281b372ab5b8c62c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:16 +0000
Subject: [PATCH 32/50] fix: PSO does not reuse the boxed data cached by a PSO
 with another transform

---
 nevergrad/optimization/optimizerlib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 65584ce..25009c4 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1424,11 +1424,12 @@ class _PSO(base.Optimizer):
         return candidate
 
     def _get_boxed_data(self, particle: p.Parameter) -> np.ndarray:
-        if particle._frozen and "boxed_data" in particle._meta:
-            return particle._meta["boxed_data"]  # type: ignore
+        key = f"boxed_data_{self._config.transform}"  # particles may be shared with a PSO using another transform
+        if particle._frozen and key in particle._meta:
+            return particle._meta[key]  # type: ignore
         boxed_data = self._transform.forward(particle.get_standardized_data(reference=self.parametrization))
         if particle._frozen:  # only save is frozen
-            particle._meta["boxed_data"] = boxed_data
+            particle._meta[key] = boxed_data
         return boxed_data
 
     def _spawn_mutated_particle(self, particle: p.Parameter) -> p.Parameter:
-- 
2.43.0


From a2072cb27949965f69568ceccc7b7c530bc3d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:47 +0000
Subject: [PATCH 33/50] fix: bounding transforms stay inside their bounds
 despite rounding (tanh, arctan, gaussian)

---
 nevergrad/parametrization/transforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nevergrad/parametrization/transforms.py b/nevergrad/parametrization/transforms.py
index 388d8c0..53461f4 100644
--- a/nevergrad/parametrization/transforms.py
+++ b/nevergrad/parametrization/transforms.py
@@ -168,7 +168,7 @@ class TanhBound(BoundTransform):
 
     def forward(self, x: np.ndarray) -> np.ndarray:
         self._check_shape(x)
-        return self._b + self._a * np.tanh(x)  # type: ignore
+        return np.clip(self._b + self._a * np.tanh(x), self.a_min, self.a_max)  # type: ignore
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         self._check_shape(y)
@@ -177,7 +177,7 @@ class TanhBound(BoundTransform):
                 f"Only data between {self.a_min} and {self.a_max} "
                 "can be transformed back (bounds lead to infinity)."
             )
-        return np.arctanh((y - self._b) / self._a)  # type: ignore
+        return np.arctanh(np.clip((y - self._b) / self._a, -1, 1))  # type: ignore
 
 
 class Clipping(BoundTransform):
@@ -243,13 +243,13 @@ class ArctanBound(BoundTransform):
 
     def forward(self, x: np.ndarray) -> np.ndarray:
         self._check_shape(x)
-        return self._b + self._a * np.arctan(x)  # type: ignore
+        return np.clip(self._b + self._a * np.arctan(x), self.a_min, self.a_max)  # type: ignore
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         self._check_shape(y)
         if (y > self.a_max).any() or (y < self.a_min).any():
             raise ValueError(f"Only data between {self.a_min} and {self.a_max} can be transformed back.")
-        return np.tan((y - self._b) / self._a)  # type: ignore
+        return np.tan(np.clip((y - self._b) / self._a, -np.pi / 2, np.pi / 2))  # type: ignore
 
 
 class CumulativeDensity(BoundTransform):
@@ -294,7 +294,7 @@ class CumulativeDensity(BoundTransform):
             self._back = stats.cauchy.ppf
 
     def forward(self, x: np.ndarray) -> np.ndarray:
-        return self._a * self._forw(x / self._scale) + self._b  # type: ignore
+        return np.clip(self._a * self._forw(x / self._scale) + self._b, self.a_min, self.a_max)  # type: ignore
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         if (y > self.a_max).any() or (y < self.a_min).any():
-- 
2.43.0


From 36ab5df1eae48e79a3892955662660aa7c23791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:37 +0000
Subject: [PATCH 34/50] fix: the copy of a function does not share its
 constraints and multiobjective bounds with the original

---
 nevergrad/functions/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nevergrad/functions/base.py b/nevergrad/functions/base.py
index 77878c3..ecb3f5c 100644
--- a/nevergrad/functions/base.py
+++ b/nevergrad/functions/base.py
@@ -196,10 +196,9 @@ class ExperimentFunction:
                 "ExperimentFunction.__new__ and copy to better understand what happens"
             )
         # propagate other useful information # TODO a bit hacky
-        output.parametrization._constraint_checkers = self.parametrization._constraint_checkers
-        output.multiobjective_upper_bounds = (
-            self.multiobjective_upper_bounds
-        )  # TODO not sure why this is needed
+        output.parametrization._constraint_checkers = list(self.parametrization._constraint_checkers)
+        bounds = self.multiobjective_upper_bounds
+        output.multiobjective_upper_bounds = None if bounds is None else np.array(bounds)
         return output
 
     def compute_pseudotime(  # pylint: disable=unused-argument
-- 
2.43.0


From 2b970fbf3e566d3b01fd6e1752b571237bcd61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:37 +0000
Subject: [PATCH 35/50] fix: the copy of a function keeps the function
 information of its parametrization

---
 nevergrad/functions/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/functions/base.py b/nevergrad/functions/base.py
index ecb3f5c..3292e7c 100644
--- a/nevergrad/functions/base.py
+++ b/nevergrad/functions/base.py
@@ -3,6 +3,7 @@
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
 
+import copy
 import inspect
 from pathlib import Path
 import numbers
@@ -185,6 +186,7 @@ class ExperimentFunction:
         output.parametrization.real_world = self.parametrization.real_world
         output.parametrization.hptuning = self.parametrization.hptuning
         output.parametrization.neural = self.parametrization.neural
+        output.parametrization.function = copy.copy(self.parametrization.function)
         assert output.parametrization.real_world == self.parametrization.real_world, "pb in copy!"
         # then if there are still differences, something went wrong
         if not output.equivalent_to(self):
-- 
2.43.0


From 056e591a15e2d7f413aaffa55708302b8585aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:37 +0000
Subject: [PATCH 36/50] fix: the copy of a SpecialEvaluationExperiment does not
 share its parametrization with the original

---
 nevergrad/functions/helpers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nevergrad/functions/helpers.py b/nevergrad/functions/helpers.py
index 1a8ff00..4d4d1ee 100644
--- a/nevergrad/functions/helpers.py
+++ b/nevergrad/functions/helpers.py
@@ -40,15 +40,11 @@ class SpecialEvaluationExperiment(base.ExperimentFunction):
     def _delegate_to_experiment(self, *args: tp.Any, **kwargs: tp.Any) -> tp.Loss:
         return self._experiment(*args, **kwargs)
 
-    def copy(self) -> "SpecialEvaluationExperiment":
+    def _internal_copy(self) -> "SpecialEvaluationExperiment":
         """Creates with new experiments and evaluations"""
-        instance = super().copy()
-        for name in [
-            "_experiment",
-            "_evaluation",
-        ]:
-            setattr(instance, name, getattr(self, name).copy())
-        return instance
+        kwargs = dict(self._auto_init)
+        kwargs.update(experiment=self._experiment.copy(), evaluation=self._evaluation.copy())
+        return self.__class__(**kwargs)
 
     def compute_pseudotime(  # pylint: disable=unused-argument
         self, input_parameter: tp.Any, loss: tp.Loss
-- 
2.43.0


From f9b0b01ebcd6e364d8da0ddfdb1dea03e1f9b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:37 +0000
Subject: [PATCH 37/50] fix: the multiobjective bounds of FarOptimumFunction
 are not lost at initialization

---
 nevergrad/functions/functionlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/functions/functionlib.py b/nevergrad/functions/functionlib.py
index 8e3ee3d..717bccb 100644
--- a/nevergrad/functions/functionlib.py
+++ b/nevergrad/functions/functionlib.py
@@ -335,8 +335,8 @@ class FarOptimumFunction(ExperimentFunction):
         parametrization.set_mutation(sigma=sigma)
         if recombination == "crossover":
             parametrization = ng.ops.mutations.Crossover()(parametrization)
-        self.multiobjective_upper_bounds = np.array(2 * self._optimum) if multiobjective else None
         super().__init__(self._multifunc if multiobjective else self._monofunc, parametrization.set_name(""))  # type: ignore
+        self.multiobjective_upper_bounds = np.array(2 * self._optimum) if multiobjective else None
 
     def _multifunc(self, x: np.ndarray) -> np.ndarray:
         return np.abs(x - self._optimum)  # type: ignore
-- 
2.43.0


From ab7ae03e94f51b7a3bf849c08928e3c120b93811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 38/50] fix: recast optimizers draw from the random state of
 the parametrization instead of the global generator

---
 nevergrad/optimization/recastlib.py | 30 +++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index 723d341..fbf3d19 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -6,6 +6,7 @@
 
 import functools
 import math
+import uuid
 import warnings
 import weakref
 import numpy as np
@@ -150,7 +151,11 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                     for i in range(weakself.dimension)
                 ]
                 best_parameters, _best_values, _experiment, _model = axoptimize(
-                    parameters, evaluation_function=ax_obj, minimize=True, total_trials=budget
+                    parameters,
+                    evaluation_function=ax_obj,
+                    minimize=True,
+                    total_trials=budget,
+                    random_seed=int(weakself._rng.randint(2**31 - 1)),
                 )
                 best_x = np.array([float(best_parameters["x" + str(i)]) for i in range(weakself.dimension)])
                 best_x = weakself._normalizer.backward(np.asarray(best_x, dtype=float))
@@ -262,8 +267,8 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                 import time
                 from pathlib import Path
 
-                the_date = str(time.time()) + "_" + str(np.random.rand())
-                tag = str(np.random.rand())
+                the_date = uuid.uuid4().hex  # unique names (files and variables), no influence on the algorithm
+                tag = the_date
                 feed = "/tmp/smac_feed" + the_date + ".txt"
                 fed = "/tmp/smac_fed" + the_date + ".txt"
 
@@ -439,7 +444,12 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                 )
                 num_calls = 0
                 while budget - num_calls > 0:
-                    options = {"maxfevals": budget - num_calls, "verbose": -9}
+                    options = {
+                        "maxfevals": budget - num_calls,
+                        "verbose": -9,
+                        "randn": weakself._rng.randn,
+                        "seed": np.nan,  # do not seed the global generator
+                    }
                     if weakself._normalizer is not None and weakself._normalizer.fully_bounded:
                         # Tell CMA to work in [0, 1].
                         options["bounds"] = [0.0, 1.0]
@@ -452,9 +462,10 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                     )
                     x0 = (
                         0.5
-                        + np.random.uniform() * np.random.uniform(low=-0.5, high=0.5, size=weakself.dimension)
+                        + weakself._rng.uniform()
+                        * weakself._rng.uniform(low=-0.5, high=0.5, size=weakself.dimension)
                         if weakself._normalizer is not None and weakself._normalizer.fully_bounded
-                        else np.random.randn(weakself.dimension)
+                        else weakself._rng.randn(weakself.dimension)
                     )
                     if res[1] < best_res:
                         best_res = res[1]
@@ -620,12 +631,15 @@ class _PymooMinimizeBase(recaster.SequentialRecastOptimizer):
         if weakself.algorithm == "CMAES":
             from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
 
-            algorithm = CMAES(x0=np.random.random(problem.n_var), maxfevals=weakself.budget)
+            algorithm = CMAES(
+                x0=np.random.RandomState(weakself._initial_seed).uniform(size=problem.n_var),
+                maxfevals=weakself.budget,
+            )
         elif weakself.algorithm == "BIPOP":
             from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
 
             algorithm = CMAES(
-                x0=np.random.random(problem.n_var),
+                x0=np.random.RandomState(weakself._initial_seed).uniform(size=problem.n_var),
                 sigma=0.5,
                 restarts=2,
                 maxfevals=weakself.budget,
-- 
2.43.0


From 3ccabd776e8e18eeb0f45cad0f27fbffde6dd876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:37 +0000
Subject: [PATCH 39/50] fix: metamodels use the random state of the
 parametrization

---
 nevergrad/optimization/metamodel.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/nevergrad/optimization/metamodel.py b/nevergrad/optimization/metamodel.py
index 7cbdd2e..0c2cf77 100644
--- a/nevergrad/optimization/metamodel.py
+++ b/nevergrad/optimization/metamodel.py
@@ -22,20 +22,25 @@ def learn_on_k_best(
     degree: int = 2,
     shape: tp.Any = None,
     para: tp.Any = None,
+    random_state: tp.Optional[np.random.RandomState] = None,
 ) -> tp.ArrayLike:
     """Approximate optimum learnt from the k best.
 
     Parameters
     ----------
     archive: utils.Archive[utils.Value]
+    random_state: RandomState
+        random state for all the random choices (seeded from numpy if not provided)
     """
+    if random_state is None:
+        random_state = np.random.RandomState(np.random.randint(2**32, dtype=np.uint32))
     # print("learn_on_k_best", k, algorithm, flush=True)
     items = list(archive.items_as_arrays())
     dimension = len(items[0][0])
     if algorithm == "image":
         k = len(archive) // 6
     if algorithm == "voxelize":
-        k = int(np.random.randint(len(archive) // 6))
+        k = int(random_state.randint(len(archive) // 6))
         if k < 2:
             k = 2
     # Select the k best.
@@ -73,8 +78,14 @@ def learn_on_k_best(
                 outputs += [[values]]
         from sklearn.neural_network import MLPRegressor
 
-        nw = np.random.choice([16, 64, 256])
-        model = MLPRegressor(hidden_layer_sizes=(nw, nw), solver="adam", max_fun=15000, max_iter=200)
+        nw = random_state.choice([16, 64, 256])
+        model = MLPRegressor(
+            hidden_layer_sizes=(nw, nw),
+            solver="adam",
+            max_fun=15000,
+            max_iter=200,
+            random_state=random_state,
+        )
         # print("learning on ", len(inputs), " and ", len(outputs))
         # print("dim input = ", len(inputs[0]), inputs[np.random.randint(len(inputs))])
         inputs = np.array(inputs)  # type: ignore
@@ -117,7 +128,7 @@ def learn_on_k_best(
     if algorithm == "neural":
         from sklearn.neural_network import MLPRegressor
 
-        model = MLPRegressor(hidden_layer_sizes=(16, 16), solver="lbfgs")
+        model = MLPRegressor(hidden_layer_sizes=(16, 16), solver="lbfgs", random_state=random_state)
     elif algorithm in ["image"]:
         from sklearn.svm import SVR
         import scipy.ndimage as ndimage
@@ -146,7 +157,7 @@ def learn_on_k_best(
     elif algorithm == "rf":
         from sklearn.ensemble import RandomForestRegressor
 
-        model = RandomForestRegressor()
+        model = RandomForestRegressor(random_state=random_state)
     else:
         assert algorithm == "quad", f"Metamodelling algorithm {algorithm} not recognized."
         # We need SKLearn.
@@ -183,6 +194,8 @@ def learn_on_k_best(
                 parametrization=para if (para is not None and algorithm == "image") else dimension,
                 budget=45 * dimension + 30,
             )
+            if not (para is not None and algorithm == "image"):  # otherwise shared through "para"
+                optimizer.parametrization.random_state = random_state
             # limit to 20s at most
             optimizer.register_callback("ask", callbacks.EarlyStopping.timer(20))
             if "image" in algorithm:
-- 
2.43.0


From 2da86031fc2dc2588866d79cab2cdfa26c4d8d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 40/50] fix: optimizers draw from the random state of the
 parametrization instead of the global generator

---
 .../optimization/differentialevolution.py     | 15 ++--
 nevergrad/optimization/optimizerlib.py        | 83 ++++++++++---------
 2 files changed, 53 insertions(+), 45 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 1324edc..1193cb7 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -87,10 +87,10 @@ class Crossover:
             return
         local_donor = donor.reshape(shape)
         local_individual = individual.reshape(shape)
-        x1 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x2 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x3 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x4 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
+        x1 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x2 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x3 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x4 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
         it = np.nditer(local_donor, flags=["multi_index"])
         for _ in it:
             d1 = np.linalg.norm(np.array(it.multi_index) - x1)
@@ -161,7 +161,7 @@ class _DE(base.Optimizer):
         sample_size = int((self.dimension * (self.dimension - 1)) / 2 + 2 * self.dimension + 1)
         if self._config.high_speed and len(self.archive) >= sample_size:
             try:
-                meta_data = metamodel.learn_on_k_best(self.archive, sample_size)
+                meta_data = metamodel.learn_on_k_best(self.archive, sample_size, random_state=self._rng)
                 return self.parametrization.spawn_child().set_standardized_data(meta_data)
             except metamodel.MetaModelFailure:  # The optimum is at infinity. Shit happens.
                 pass  # MetaModel failures are something which happens, no worries.
@@ -289,10 +289,9 @@ class _DE(base.Optimizer):
             else:  # multiobjective: replace if in pareto and some parents are not
                 pareto_uids = {c.uid for c in self.pareto_front()}
                 if candidate.uid in pareto_uids:
-                    non_pareto_pop = {c.uid for c in self.population.values()} - pareto_uids
+                    non_pareto_pop = [c for c in self.population.values() if c.uid not in pareto_uids]
                     if non_pareto_pop:
-                        nonpareto = {c.uid: c for c in self.population.values()}[list(non_pareto_pop)[0]]
-                        discardable = nonpareto.heritage["lineage"]
+                        discardable = non_pareto_pop[0].heritage["lineage"]
         if discardable is not None:  # if we found a point to kick, kick it
             del self.population[discardable]
             self._uid_queue.discard(discardable)
diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 25009c4..29efd42 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -75,11 +75,11 @@ def smooth_copy(array: p.Array, possible_radii: tp.Optional[tp.List[int]] = None
     except Exception as e:
         assert False, f"{e} in smooth_copy, {radii}, {np.prod(radii)}"
     # DE style operator.
-    invfreq = 4 if len(possible_radii) == 1 else max(4, np.random.randint(max(4, len(array.value.flatten()))))
+    invfreq = 4 if len(possible_radii) == 1 else max(4, array.random_state.randint(max(4, len(array.value.flatten()))))
     indices = array.random_state.randint(invfreq, size=value.shape) == 0
     while np.sum(indices) == 0 and len(possible_radii) > 1:
         invfreq = (
-            4 if len(possible_radii) == 1 else max(4, np.random.randint(max(4, len(array.value.flatten()))))
+            4 if len(possible_radii) == 1 else max(4, array.random_state.randint(max(4, len(array.value.flatten()))))
         )
         indices = array.random_state.randint(invfreq, size=value.shape) == 0
     value[indices] = value2[indices]
@@ -280,7 +280,7 @@ class _OnePlusOne(base.Optimizer):
             and self._num_ask % max(self.num_workers + 1, self.antismooth) == 0
             and isinstance(self.parametrization, p.Array)
         ):
-            possible_radii = [3] if not self.super_radii else [3, 3 + np.random.randint(int(np.sqrt(np.sqrt(self.dimension))))]  # type: ignore
+            possible_radii = [3] if not self.super_radii else [3, 3 + self._rng.randint(int(np.sqrt(np.sqrt(self.dimension))))]  # type: ignore
             self.suggest(smooth_copy(pessimistic, possible_radii=possible_radii).value)  # type: ignore
         if self.num_objectives > 1 and self.use_pareto:  # multiobjective
             # revert to using a sample of the pareto front (not "pessimistic" though)
@@ -329,7 +329,7 @@ class _OnePlusOne(base.Optimizer):
                 mutation_rate = max(0.1 / self.dimension, self._global_mr)
                 assert mutation_rate > 0.0
                 individual_mutation_rate = 1.0 / (
-                    1.0 + (((1.0 - mutation_rate) / mutation_rate) * np.exp(0.22 * np.random.randn()))
+                    1.0 + (((1.0 - mutation_rate) / mutation_rate) * np.exp(0.22 * self._rng.randn()))
                 )
                 # print(f"pd={pessimistic_data}_imr={individual_mutation_rate}, d={self.dimension}, arity={self.arity_for_discrete_mutation}")
                 data = mutator.portfolio_discrete_mutation(
@@ -829,7 +829,9 @@ class _CMA(base.Optimizer):
         sample_size = int(d * d / 2 + d / 2 + 3)
         if self._config.high_speed and n >= sample_size:
             try:
-                data = learn_on_k_best(self.archive, sample_size, self.algorithm)
+                data = learn_on_k_best(
+                    self.archive, sample_size, self.algorithm, random_state=self._rng
+                )
                 return data  # type: ignore
             except MetaModelFailure:  # Failures in the metamodeling can happen.
                 pass
@@ -1647,7 +1649,7 @@ class _Rescaled(base.Optimizer):
     def rescale_candidate(self, candidate: p.Parameter, inverse: bool = False) -> p.Parameter:
         data = candidate.get_standardized_data(reference=self.parametrization)
         if self.shift is not None:
-            data = data + self.shift * np.random.randn(self.dimension)
+            data = data + self.shift * self._rng.randn(self.dimension)
         scale = self.scale if not inverse else 1.0 / self.scale
         return self.parametrization.spawn_child().set_standardized_data(scale * data)
 
@@ -2196,7 +2198,13 @@ class _MetaModel(base.Optimizer):
         if len(self.archive) >= sample_size and not self._num_ask % freq:
             try:
                 data = learn_on_k_best(
-                    self.archive, sample_size, self.algorithm, self.degree, shape, self.parametrization
+                    self.archive,
+                    sample_size,
+                    self.algorithm,
+                    self.degree,
+                    shape,
+                    self.parametrization,
+                    random_state=self._rng,
                 )
 
                 candidate = self.parametrization.spawn_child().set_standardized_data(data)
@@ -2391,8 +2399,8 @@ RFMetaModelTwoPointsDE = ParametrizedMetaModel(algorithm="rf", multivariate_opti
 )
 
 
-def rescaled(n: int, o: tp.Any):
-    return Rescaled(base_optimizer=o, scale=1.0 / np.exp(np.log(n) * np.random.rand()))  # type: ignore
+def rescaled(n: int, o: tp.Any, rng: np.random.RandomState):
+    return Rescaled(base_optimizer=o, scale=1.0 / np.exp(np.log(n) * rng.rand()))  # type: ignore
 
 
 @registry.register
@@ -2405,7 +2413,7 @@ class MultiBFGSPlus(Portfolio):
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1) for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2426,7 +2434,7 @@ class LogMultiBFGSPlus(Portfolio):
             num_workers = int(max(num_workers, 1 + np.log(budget)))
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1) for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2447,7 +2455,7 @@ class SqrtMultiBFGSPlus(Portfolio):
             num_workers = int(max(num_workers, 1 + np.sqrt(budget)))
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1) for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2464,7 +2472,7 @@ class MultiCobylaPlus(Portfolio):
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, Cobyla)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, Cobyla, self._rng)(self.parametrization, num_workers=1) for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2483,7 +2491,7 @@ class MultiSQPPlus(Portfolio):
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1) for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2505,7 +2513,7 @@ class BFGSCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2530,7 +2538,7 @@ class LogBFGSCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2555,7 +2563,7 @@ class SqrtBFGSCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2578,7 +2586,7 @@ class SQPCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2603,7 +2611,7 @@ class LogSQPCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2628,7 +2636,7 @@ class SqrtSQPCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2929,7 +2937,7 @@ class F3SQPCMA(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            Rescaled(base_optimizer=SQP, scale=max(0.01, np.exp(-1.0 / np.random.rand())))(
+            Rescaled(base_optimizer=SQP, scale=max(0.01, np.exp(-1.0 / self._rng.rand())))(
                 self.parametrization, num_workers=1
             )
             for _ in range(num_workers - cma_workers)
@@ -4582,7 +4590,7 @@ class NGOptF2(NGOpt39):
                     return SQPCMA
 
             def most_frequent(List):
-                return max(set(List), key=List.count)
+                return max(List, key=List.count)  # the first one in case of ties
 
             return registry[most_frequent(algs)]
 
@@ -4700,7 +4708,7 @@ class NGOptF3(NGOpt39):
                     return SQPCMA
 
             def most_frequent(List):
-                return max(set(List), key=List.count)
+                return max(List, key=List.count)  # the first one in case of ties
 
             return registry[most_frequent(algs)]
 
@@ -4833,7 +4841,7 @@ class NGOptF5(NGOpt39):
                     return SQPCMA
 
             def most_frequent(List):
-                return max(set(List), key=List.count)
+                return max(List, key=List.count)  # the first one in case of ties
 
             return registry[most_frequent(algs)]
 
@@ -5844,7 +5852,7 @@ class NgIoh14(NgIoh11):
                 optimizers += [
                     Rescaled(
                         base_optimizer=NgIoh11._select_optimizer_cls(self),
-                        scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                        scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                     )
                 ]
                 if len(optimizers) < num:
@@ -5860,7 +5868,7 @@ class NgIoh14(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 return ConfPortfolio(optimizers=optimizers, warmup_ratio=0.70, no_crossing=True)
@@ -5967,7 +5975,7 @@ class NgIoh13(NgIoh11):
                 optimizers += [
                     Rescaled(
                         base_optimizer=NgIoh11._select_optimizer_cls(self),
-                        scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                        scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                     )
                 ]
                 if len(optimizers) < num:
@@ -5983,7 +5991,7 @@ class NgIoh13(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 return ConfPortfolio(optimizers=optimizers, warmup_ratio=1.00, no_crossing=True)
@@ -6091,7 +6099,7 @@ class NgIoh15(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -6199,7 +6207,7 @@ class NgIoh12(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -6310,7 +6318,7 @@ class NgIoh16(NgIoh11):
                         Rescaled(
                             base_optimizer=Carola14,
                             # base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 # print("NgIoh16 chooses ", optimizers)
@@ -6422,7 +6430,7 @@ class NgIoh17(NgIoh11):
                         Rescaled(
                             # base_optimizer=Carola2,
                             base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -7071,7 +7079,7 @@ class NgIoh18(NgIoh11):
                             Rescaled(
                                 # base_optimizer=Carola2,
                                 base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                scale=np.random.rand() * 2.0,
+                                scale=self._rng.rand() * 2.0,
                             )
                         ]
                         if k % 3 == 2
@@ -7080,7 +7088,7 @@ class NgIoh18(NgIoh11):
                                 Rescaled(
                                     # base_optimizer=Carola2,
                                     base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                    shift=np.random.randn(),
+                                    shift=self._rng.randn(),
                                 )
                             ]
                             if k % 3 == 0
@@ -7088,8 +7096,8 @@ class NgIoh18(NgIoh11):
                                 Rescaled(
                                     # base_optimizer=Carola2,
                                     base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                    scale=np.random.rand() * 2.0,
-                                    shift=np.random.randn(),
+                                    scale=self._rng.rand() * 2.0,
+                                    shift=self._rng.randn(),
                                 )
                             ]
                         )
@@ -7766,7 +7774,8 @@ CMARS = Chaining([RandomSearch, CMA], ["tenth"]).set_name("CMARS", register=True
 NgIohRS = Chaining([oneshot.RandomSearch, CSEC11], ["tenth"]).set_name("NgIohRS", register=True)
 PolyLN = ConfPortfolio(
     optimizers=[
-        Rescaled(base_optimizer=SmallLognormalDiscreteOnePlusOne, scale=np.random.rand()) for i in range(20)
+        Rescaled(base_optimizer=SmallLognormalDiscreteOnePlusOne, scale=scale)
+        for scale in np.random.RandomState(12).rand(20)  # fixed seed: the scales do not depend on the process
     ],
     warmup_ratio=0.5,
 ).set_name("PolyLN", register=True)
-- 
2.43.0


From 61e73faa566e0abf875e6c036d6caad2ad2208bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:40 +0000
Subject: [PATCH 41/50] fix: stochastic NLOPT algorithms are seeded from the
 random state of the parametrization

---
 nevergrad/optimization/recastlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index fbf3d19..5d33929 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -190,6 +190,9 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                 # opt.set_initial_step([0.05, 0.05])
                 opt.set_maxeval(budget)
 
+                # stochastic variants draw from a generator of nlopt
+                nlopt.srand(int(weakself._rng.randint(2**31 - 1)))
+
                 # Start the optimization with the first guess
                 firstguess = 0.5 * np.ones(weakself.dimension)
                 best_x = opt.optimize(firstguess)
-- 
2.43.0


From c34eb7029416c8267b6ef8ca8ce989c5209b1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:58 +0000
Subject: [PATCH 42/50] fix: Rescaled adds no random shift to the points it is
 told without having asked them

---
 nevergrad/optimization/optimizerlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 29efd42..11e8645 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1648,7 +1648,7 @@ class _Rescaled(base.Optimizer):
 
     def rescale_candidate(self, candidate: p.Parameter, inverse: bool = False) -> p.Parameter:
         data = candidate.get_standardized_data(reference=self.parametrization)
-        if self.shift is not None:
+        if self.shift is not None and not inverse:  # a told point is what it is
             data = data + self.shift * self._rng.randn(self.dimension)
         scale = self.scale if not inverse else 1.0 / self.scale
         return self.parametrization.spawn_child().set_standardized_data(scale * data)
-- 
2.43.0


From 429569157d00dc50b67d0583c69dfc136204af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:38 +0000
Subject: [PATCH 43/50] fix: optimizing one variable with a CMA does not switch
 its configuration to fcmaes for everyone

---
 nevergrad/optimization/optimizerlib.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 11e8645..5929ba5 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -741,6 +741,8 @@ class _CMA(base.Optimizer):
         )
         if self._config.elitist:
             self._popsize = max(self._popsize, self.num_workers + 1)
+        # pycma does not work in dimension 1 (the config is shared, it must not be modified)
+        self._fcmaes = self._config.fcmaes or self.dimension == 1
         # internal attributes
         self._to_be_asked: tp.Deque[np.ndarray] = deque()
         self._to_be_told: tp.List[p.Parameter] = []
@@ -752,12 +754,10 @@ class _CMA(base.Optimizer):
     @property
     def es(self) -> tp.Any:  # typing not possible since cmaes not imported :(
         scale_multiplier = 1.0
-        if self.dimension == 1:
-            self._config.fcmaes = True
         if p.helpers.Normalizer(self.parametrization).fully_bounded:
             scale_multiplier = 0.3 if self.dimension < 18 else 0.15
-        if self._es is None or (not self._config.fcmaes and self._es.stop()):
-            if not self._config.fcmaes:
+        if self._es is None or (not self._fcmaes and self._es.stop()):
+            if not self._fcmaes:
                 import cma  # import inline in order to avoid matplotlib initialization warning
 
                 inopts = dict(
@@ -811,7 +811,7 @@ class _CMA(base.Optimizer):
         if len(self._to_be_told) >= self.es.popsize:
             listx = [c._meta[self._CACHE_KEY] for c in self._to_be_told]
             listy = [c.loss for c in self._to_be_told]
-            args = (listy, listx) if self._config.fcmaes else (listx, listy)
+            args = (listy, listx) if self._fcmaes else (listx, listy)
             try:
                 self.es.tell(*args)
             except (RuntimeError, AssertionError):
@@ -837,7 +837,7 @@ class _CMA(base.Optimizer):
                 pass
         if self._es is None:
             return pessimistic
-        cma_best: tp.Optional[np.ndarray] = self.es.best_x if self._config.fcmaes else self.es.result.xbest
+        cma_best: tp.Optional[np.ndarray] = self.es.best_x if self._fcmaes else self.es.result.xbest
         if cma_best is None:
             return pessimistic
         return cma_best
-- 
2.43.0


From 2b72479253759b8184b559bc4c5c22d2707b1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:10 +0000
Subject: [PATCH 44/50] fix: ParametrizedCMA hands its option algorithm to the
 CMA

---
 nevergrad/optimization/optimizerlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 5929ba5..07037e4 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -731,7 +731,7 @@ class _CMA(base.Optimizer):
         algorithm: str = "quad",
     ) -> None:
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
-        self.algorithm = algorithm
+        self.algorithm = algorithm if config is None else config.algorithm
         self._config = ParametrizedCMA() if config is None else config
         pop = self._config.popsize
         self._popsize = (
@@ -908,6 +908,7 @@ class ParametrizedCMA(base.ConfiguredOptimizer):
         self.high_speed = high_speed
         self.random_init = random_init
         self.inopts = inopts
+        self.algorithm = algorithm
 
 
 @registry.register
-- 
2.43.0


From 4f750f5f14df1ead397e5c0f657d00d784f95830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:06 +0000
Subject: [PATCH 45/50] fix: DS9 and MetaModelDSproba are marked as sequential,
 like the optimizers they are made of

---
 nevergrad/optimization/optimizerlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 07037e4..a607fd0 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2327,6 +2327,7 @@ ImageMetaModelDiagonalCMA = ParametrizedMetaModel(
 MetaModelDSproba = ParametrizedMetaModel(multivariate_optimizer=DSproba).set_name(
     "MetaModelDSproba", register=True
 )
+MetaModelDSproba.no_parallelization = True
 RFMetaModelOnePlusOne = ParametrizedMetaModel(multivariate_optimizer=OnePlusOne, algorithm="rf").set_name(
     "RFMetaModelOnePlusOne", register=True
 )
@@ -3547,6 +3548,7 @@ DS9 = Chaining(
 Carola9.no_parallelization = True
 Carola8.no_parallelization = True
 DS8.no_parallelization = True
+DS9.no_parallelization = True
 Carola10 = Chaining([Cobyla, CmaFmin2, RBFGS], ["tenth", "most"]).set_name("Carola10", register=True)
 Carola10.no_parallelization = True
 
-- 
2.43.0


From 8f302ac8b6cd016446cad2ca187b0bee8e8ae596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:02 +0000
Subject: [PATCH 46/50] fix: the thread of an unfinished wrapped optimizer does
 not keep the program from ending

---
 nevergrad/optimization/recaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index fe98c5f..fc37b25 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -48,7 +48,7 @@ class _MessagingThread(threading.Thread):
 
     # pylint: disable=too-many-instance-attributes
     def __init__(self, caller: tp.Callable[..., tp.Any], *args: tp.Any, **kwargs: tp.Any) -> None:
-        super().__init__()
+        super().__init__(daemon=True)  # an unfinished optimizer must not keep the program from ending
         self.messages_ask: tp.Any = queue.Queue()
         self.messages_tell: tp.Any = queue.Queue()
         self.call_count = 0
-- 
2.43.0


From 7d492aef9a52e15e4d8c5514e5524c872678031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:09 +0000
Subject: [PATCH 47/50] fix: multiobjective DE discards a told-not-asked point
 by its key in the population

---
 nevergrad/optimization/differentialevolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 1193cb7..dcbad6d 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -289,9 +289,9 @@ class _DE(base.Optimizer):
             else:  # multiobjective: replace if in pareto and some parents are not
                 pareto_uids = {c.uid for c in self.pareto_front()}
                 if candidate.uid in pareto_uids:
-                    non_pareto_pop = [c for c in self.population.values() if c.uid not in pareto_uids]
+                    non_pareto_pop = [u for u, c in self.population.items() if c.uid not in pareto_uids]
                     if non_pareto_pop:
-                        discardable = non_pareto_pop[0].heritage["lineage"]
+                        discardable = non_pareto_pop[0]
         if discardable is not None:  # if we found a point to kick, kick it
             del self.population[discardable]
             self._uid_queue.discard(discardable)
-- 
2.43.0


From ee1f67aa2272b05fdb87b5ffcfa17c2391277d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:09 +0000
Subject: [PATCH 48/50] fix: UidQueue.discard leaves no other occurrence of the
 uid in the queues

---
 nevergrad/optimization/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/utils.py b/nevergrad/optimization/utils.py
index 52b826e..85029bd 100644
--- a/nevergrad/optimization/utils.py
+++ b/nevergrad/optimization/utils.py
@@ -344,9 +344,12 @@ class UidQueue:
             self.asked.discard(uid)
 
     def discard(self, uid: str) -> None:
+        """Removes the uid from the queues (it can be several times in the queues if it was asked several times)"""
         if uid in self.asked:
             self.asked.discard(uid)
-        else:
+        elif uid not in self.told:
+            raise ValueError(f"{uid} is not in the queues")
+        while uid in self.told:
             self.told.remove(uid)
 
 
-- 
2.43.0


From 8c76cb4f970c12669e92b0a0fd06beaf824f8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:09 +0000
Subject: [PATCH 49/50] fix: EvolutionStrategy without offsprings only queues
 members of its population

---
 nevergrad/optimization/es.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index 41680ab..40ce371 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -63,8 +63,7 @@ class _EvolutionStrategy(base.Optimizer):
         if self._config.offsprings is None:
             uid = candidate.heritage["lineage"]
             self._uid_queue.tell(uid)
-            parent_value = float("inf") if uid not in self._population else base._loss(self._population[uid])
-            if loss < parent_value:
+            if uid not in self._population or loss < base._loss(self._population[uid]):
                 self._population[uid] = candidate
         else:
             no_parent = next(iter(candidate.parents_uids), "#no_parent#") not in self._population
-- 
2.43.0


From 68ca42808c7069d3227abd51a53c6d6c49b16935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:09 +0000
Subject: [PATCH 50/50] fix: EvolutionStrategy selects among distinct points,
 and ranks only evaluated ones

---
 nevergrad/optimization/es.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index 40ce371..c4a4ea6 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -77,7 +77,9 @@ class _EvolutionStrategy(base.Optimizer):
 
     def _select(self) -> None:
         choices = self._waiting + ([] if self._config.only_offsprings else list(self._population.values()))
+        choices = list({x.uid: x for x in choices}.values())  # initial points may be both waiting and in population
         if self._rank_method is not None and self.num_objectives > 1:
+            choices = [x for x in choices if x.loss is not None]  # members which are still to be told cannot be ranked
             choices_rank = self._rank_method(choices, n_selected=self._config.popsize)
             choices = [x for x in choices if x.uid in choices_rank]
         else:
-- 
2.43.0

