"""Findings, obligations, evidence and exit codes shared by all checks."""
from __future__ import annotations

import json
import os
import pathlib
import time
import typing as tp

from .project import AnalysisBroken, ClassInfo, FuncInfo, Project
from .interp import Interp, Path, Policy

VERIF = pathlib.Path(__file__).resolve().parents[1]


class Finding:
    def __init__(self, rule: str, construct: str, loc: str, message: str, detail: str = "") -> None:
        self.rule, self.construct, self.loc, self.message, self.detail = rule, construct, loc, message, detail

    @property
    def key(self) -> tp.Tuple[str, str]:
        return (self.rule, self.construct)


class Ctx:
    """Collects what a check looked at and what it found."""

    def __init__(self, prop: str, project: Project, tier: str = "quick") -> None:
        self.prop, self.project, self.tier = prop, project, tier
        self.findings: tp.Dict[tp.Tuple[str, str], Finding] = {}
        self.rules: tp.Dict[str, tp.Dict[str, tp.Any]] = {}
        self.functions: tp.Set[str] = set()
        self.npaths = 0
        self.nevents = 0
        self.notes: tp.List[str] = []

    # -- obligations --------------------------------------------------------
    def rule(self, rule: str, text: str, minimum: int = 1) -> None:
        self.rules.setdefault(rule, {"rule": text, "obligations": 0, "violated": 0, "minimum": minimum, "constructs": []})

    def ok(self, rule: str, construct: str = "", n: int = 1) -> None:
        r = self.rules[rule]
        r["obligations"] += n
        if construct and construct not in r["constructs"] and len(r["constructs"]) < 40:
            r["constructs"].append(construct)

    def bad(self, rule: str, construct: str, loc: str, message: str, detail: str = "") -> None:
        r = self.rules[rule]
        r["obligations"] += 1
        r["violated"] += 1
        f = Finding(rule, construct, loc, message, detail)
        self.findings.setdefault(f.key, f)

    def check(self, rule: str, cond: bool, construct: str, loc: str, message: str, detail: str = "") -> bool:
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, loc, message, detail)
        return cond

    # -- paths ----------------------------------------------------------------
    def paths(self, func: FuncInfo, policy: Policy, cls: tp.Optional[ClassInfo] = None, **kw: tp.Any) -> tp.List[Path]:
        interp = Interp(self.project, policy, cls if cls is not None else func.cls)
        out = interp.run(func, cls if cls is not None else func.cls, **kw)
        self.functions.add(func.fullname)
        self.functions |= interp.inlined
        self.npaths += len(out)
        self.nevents += sum(len(p.events) for p in out)
        if not out:
            raise AnalysisBroken(f"no path found through {func.fullname}")
        return out

    def seen(self, func: tp.Union[FuncInfo, str]) -> None:
        self.functions.add(func if isinstance(func, str) else func.fullname)


def load_known(prop: str) -> tp.Dict[tp.Tuple[str, str], str]:
    out = {}
    path = VERIF / "known_findings.jsonl"
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if not line.startswith("{"):
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d["property"] == prop:
                out[(d["rule"], d["construct"])] = d["what"]
    return out


def finish(ctx: Ctx, t0: float, level: str, explanation: str) -> int:
    known = load_known(ctx.prop)
    broken = []
    for name, r in ctx.rules.items():
        if r["obligations"] < r["minimum"]:
            broken.append(f"rule {name}: only {r['obligations']} instance(s) found, at least {r['minimum']} confirmed by hand")
    new = [f for f in ctx.findings.values() if f.key not in known]
    old = [f for f in ctx.findings.values() if f.key in known]
    evidence = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": level,
        "coverage": {
            "explanation": explanation,
            "rules": {k: {kk: vv for kk, vv in r.items()} for k, r in ctx.rules.items()},
            "functions_analysed": len(ctx.functions),
            "paths_enumerated": ctx.npaths,
            "events_on_paths": ctx.nevents,
            "modules_parsed": len(ctx.project.modules),
            "obligations": sum(r["obligations"] for r in ctx.rules.values()),
            "functions": sorted(ctx.functions)[:400],
            "notes": ctx.notes,
            "known_findings": [f"{f.rule}|{f.construct}" for f in old],
            "violations": [{"rule": f.rule, "construct": f.construct, "at": f.loc, "what": f.message} for f in new],
        },
        "wall_s": round(time.time() - t0, 3),
    }
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    stale = evdir / f"{ctx.prop}.violation.txt"
    if stale.exists():
        stale.unlink()
    (evdir / f"{ctx.prop}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")
    print(f"{ctx.prop}: {evidence['coverage']['obligations']} obligations over {len(ctx.functions)} functions, {ctx.npaths} paths, {len(ctx.project.modules)} modules")
    for name, r in ctx.rules.items():
        print(f"  rule {name}: {r['obligations']} instance(s), {r['violated']} violated")
    for f in old:
        print(f"KNOWN-FINDING: property={ctx.prop} {f.rule} {f.construct}: {known[f.key]}")
    if broken and not new:
        for b in broken:
            print("ANALYSIS-BROKEN:", b)
        return 2
    if new:
        rep = evdir / f"{ctx.prop}.violation.txt"
        lines = []
        for f in new:
            lines.append(f"{f.loc}: [{f.rule}] {f.construct}: {f.message}")
            if f.detail:
                lines += ["    " + x for x in f.detail.splitlines()]
        rep.write_text("\n".join(lines) + "\n")
        for x in [f"{f.loc}: [{f.rule}] {f.construct}: {f.message}" for f in new]:
            print(x)
        print(f"VIOLATION property={ctx.prop} replay={rep}")
        return 1
    return 0
