SEEDS = [
    dict(id="p03-empty-container", property="P03",
         edits=[("parametrization/core.py", "        if attribute != \"__dict__\":  # make", "        if container and attribute != \"__dict__\":  # make")],
         needs="an empty container which is copied, then filled through its copy",
         breaks="the copy of an empty container shares its content with the original",
         demo='''
import nevergrad as ng

orig = ng.p.Dict()
child = orig.copy()
child["x"] = ng.p.Scalar(init=1.0)
assert list(orig.keys()) == [], list(orig.keys())
'''),
    dict(id="p03-small-array", property="P03",
         edits=[("parametrization/data.py", "        child._value = np.array(self._value, copy=True)\n", "        if self._value.ndim > 1:\n            child._value = np.array(self._value, copy=True)\n")],
         needs="the value of a one-dimensional array modified in place through its child",
         breaks="children of one-dimensional arrays share the underlying numpy array of their parent",
         demo='''
import nevergrad as ng

param = ng.p.Array(init=[1.0, 2.0])
child = param.copy()
child.value[0] = 12.0
assert param.value[0] == 1.0, param.value
'''),
]
