"""addfixed.py PROP COMMIT TEXT: records a repair in known_findings.jsonl."""
import json, pathlib, sys
prop, commit, text = sys.argv[1:4]
f = pathlib.Path(__file__).resolve().parents[1] / "known_findings.jsonl"
with f.open("a") as h:
    h.write(json.dumps({"status": "fixed", "property": prop, "commit": commit, "what": f"fixed: property={prop} {commit} {text}"}) + "\n")
