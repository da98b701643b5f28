"""Regenerate /verif/MANIFEST.json from checks/*.py (META) and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
sys.dont_write_bytecode = True
NA = {
}
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        m = importlib.import_module(i.lower()).META
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i,
                       "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": m.get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it"),
                       "level": m.get("level", "model_checking"),
                       "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "All specifications are TLA+ (specs/), checked with TLC. No hooks in /repo: everything is observed through the public API. See DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
