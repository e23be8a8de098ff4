"""Writes MANIFEST.json from the rule modules and properties.jsonl."""
import ast
import json
import pathlib

V = pathlib.Path(__file__).resolve().parents[1]
TECH = "path-sensitive typestate and effect analysis over the resolved syntax tree (custom static analyser)"
NOTE = (
    "Static decision from the source on every run: every instance of each rule listed in the evidence is enumerated and decided. "
    "Assumes ordinary Python semantics, no monkey-patching, and the stated contracts of the extension points kept opaque; loops are "
    "explored up to the stated number of iterations and dynamic attribute names are not followed."
)
NA = {
    "N01": "quantifies over numerical convergence of stochastic algorithms on runtime functions: no static argument in reach bounds it",
    "N02": "numerical equality of a chain of floating point transforms: needs execution or a solver, not source shape",
    "N03": "numerical value of a recursive geometric algorithm for any dimension: functional correctness, not decidable from code shape",
    "N04": "distribution and discrepancy are numerical properties of runtime sequences",
    "N05": "arithmetic over itertools of generator indices at runtime: a partition argument needs execution or a solver",
    "N06": "ordering of simulated histories, a heap invariant over runtime durations",
}


def main() -> None:
    props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
    checks, na = [], []
    for d in props:
        pid = d["id"]
        path = V / "nvsa" / "rules" / f"{pid.lower()}.py"
        if path.exists():
            consts = {n.targets[0].id: n.value for n in ast.parse(path.read_text()).body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
            tech = ast.literal_eval(consts["TECHNIQUE"]) if "TECHNIQUE" in consts else TECH
            note = (ast.literal_eval(consts["EXPLANATION"]) + " " if "EXPLANATION" in consts else "") + NOTE
            checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --tier thorough", "technique": tech, "level": "other", "level_note": note})
        else:
            na.append({"property": pid, "reason": NA.get(pid, "not decided yet")})
    out = {"version": 1, "setup_cmd": "python3 -m compileall -q nvsa check.py", "checks": checks, "not_applicable": na}
    (V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
    print(len(checks), "checks", len(na), "not applicable")


main()
