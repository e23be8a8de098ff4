SEEDS = [
    dict(id="p16-killed-command", property="P16",
         edits=[("parametrization/utils.py", "            if retcode:\n", "            if retcode > 0:\n")],
         needs="a command which is killed by a signal",
         breaks="a command ended by a signal (negative exit status) is not reported as a failure",
         demo='''
import sys
from nevergrad.parametrization import utils

func = utils.CommandFunction([sys.executable, "-c", "import os, signal; print(12, flush=True); os.kill(os.getpid(), signal.SIGKILL)"])
try:
    func()
except utils.FailedJobError:
    pass
else:
    raise AssertionError("the failure of the command is not reported")
'''),
]
