"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            evidence_file=f"evidence/{i}.json", technique="symbolic execution of the compiled LLVM IR of /repo, assertions decided by z3 over all inputs within bounds",
            level="model_checking", level_note="exhaustive within the stated bounds: " + CHECKS[i]["bounds"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
