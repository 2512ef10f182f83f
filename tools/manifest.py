"""Writes MANIFEST.json from the check modules and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from tools.notes import TECH, NOTE, NOT_APPLICABLE
checks = []
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = []
for p in ids:
    if os.path.exists(os.path.join(V, "mc", "checks", p.lower() + ".py")) and p not in NOT_APPLICABLE:
        m = importlib.import_module("mc.checks." + p.lower())
        checks.append(dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
                           technique=TECH.get(p) or getattr(m, "TECHNIQUE", None) or "bounded-exhaustive exploration of the implementation",
                           level=m.LEVEL, level_note=NOTE.get(p) or ("Bounds (quick): %s. %s" % (m.BOUNDS["quick"], "; ".join(m.ASSUMPTIONS)))))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
