SEEDS = [
    dict(id="p06-pop-before-tell", property="P06",
         edits=[("optimization/base.py", "                    x, job = self._finished_jobs[0]\n", "                    x, job = self._finished_jobs.popleft()\n"),
                ("optimization/base.py", "                    self._finished_jobs.popleft()  # remove it after the tell to make sure it was indeed \"told\" (in case of interruption)\n", "")],
         needs="an interruption (for instance an exception of a tell callback) between getting the result and the end of tell",
         breaks="the evaluation being told when minimize is interrupted is dropped: resuming never tells it",
         demo='''
import nevergrad as ng

opt = ng.optimizers.OnePlusOne(ng.p.Array(shape=(2,)), budget=6)
fail = [True]


def cb(o, cand, loss):
    if o.num_tell == 2 and fail.pop():
        fail.append(False)
        raise KeyboardInterrupt


opt.register_callback("tell", cb)
try:
    opt.minimize(lambda x: float((x ** 2).sum()))
except KeyboardInterrupt:
    pass
opt.minimize(lambda x: float((x ** 2).sum()))
assert (opt.num_ask, opt.num_tell) == (6, 6), (opt.num_ask, opt.num_tell)
'''),
    dict(id="p06-two-passes", property="P06",
         edits=[("optimization/base.py", "            tmp_runnings, tmp_finished = [], deque()\n            for x_job in self._running_jobs:\n                (tmp_finished if x_job[1].done() else tmp_runnings).append(x_job)\n            self._running_jobs, self._finished_jobs = tmp_runnings, tmp_finished\n",
                 "            tmp_finished = deque(x_job for x_job in self._running_jobs if x_job[1].done())\n            tmp_runnings = [x_job for x_job in self._running_jobs if not x_job[1].done()]\n            self._running_jobs, self._finished_jobs = tmp_runnings, tmp_finished\n")],
         needs="a job which ends between the two passes over the running jobs",
         breaks="an evaluation finishing between the two tests belongs to neither list: it is lost and the loop ends one tell short",
         demo='''
import nevergrad as ng


class Job:
    def __init__(self, val):
        self.val, self.polls = val, 0

    def done(self):
        self.polls += 1
        return self.polls % 2 == 0  # ends between two questions

    def result(self):
        return self.val


class Executor:
    def submit(self, fn, *args, **kwargs):
        return Job(fn(*args, **kwargs))


opt = ng.optimizers.RandomSearch(ng.p.Array(shape=(2,)), budget=4, num_workers=2)
opt.minimize(lambda x: float((x ** 2).sum()), executor=Executor())
assert (opt.num_ask, opt.num_tell) == (4, 4), (opt.num_ask, opt.num_tell)
'''),
]
