#!/usr/bin/env python3
"""python3 check.py P05 [--tier thorough]: decides one property from /repo's current source."""
import importlib
import os
import pathlib
import sys
import time
import traceback

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.setrecursionlimit(20000)

from nvsa.project import AnalysisBroken, Project  # noqa: E402
from nvsa.report import Ctx, finish  # noqa: E402


def main() -> int:
    prop = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = importlib.import_module(f"nvsa.rules.{prop.lower()}")
    try:
        ctx = Ctx(prop, Project(), tier)
        mod.check(ctx)
        return finish(ctx, t0, "other", mod.EXPLANATION)
    except AnalysisBroken as e:
        if os.environ.get("NVSA_DEBUG"):
            traceback.print_exc()
        print(f"ANALYSIS-BROKEN: {prop}: {e}")
        # findings made before the analysis had to stop are still findings
        if "ctx" in dir() and ctx.findings:
            code = finish(ctx, t0, "other", mod.EXPLANATION)
            if code == 1:
                return 1
        return 2


if __name__ == "__main__":
    sys.exit(main())
