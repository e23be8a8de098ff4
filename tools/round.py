#!/usr/bin/env python3
"""round.py FILE [-w]: FILE defines R = [(prop, name, expected, [(file, old, new)])]; runs each; -w appends to tools/mutants/<prop>.py."""
import multiprocessing as mp, pathlib, runpy, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent))
import mutants
V = pathlib.Path(__file__).resolve().parents[1]
if __name__ == "__main__":
    R = runpy.run_path(sys.argv[1])["R"]
    with mp.Pool(7) as pool:
        res = pool.map(mutants.run, R, chunksize=1)
    for r in res:
        ok = r[3] == r[2]
        print("   " if ok else "<<<", r[0], r[1], "expected", r[2], "got", r[3], str(r[4])[:200])
    if "-w" in sys.argv:
        for p in sorted({r[0] for r in R}):
            f = V / "tools" / "mutants" / f"{p}.py"
            s = f.read_text().rstrip() if f.exists() else "MUTANTS = []"
            s += "\nMUTANTS += [\n" + "".join(f"    {(n, e, ed)!r},\n" for q, n, e, ed in R if q == p) + "]\n"
            f.write_text(s)
