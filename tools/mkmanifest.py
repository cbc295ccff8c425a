"""writes MANIFEST.json from the check modules and properties.jsonl"""
import json, os, sys, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    f = V + "/checks/%s.py" % p["id"].lower()
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check under construction"}); continue
    m = importlib.import_module("checks." + p["id"].lower())
    checks.append({"property": p["id"], "quick_cmd": "python3 -m vz %s" % p["id"], "thorough_cmd": "python3 -m vz %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
json.dump({"version": 1, "setup_cmd": "python3 vz/build.py asan plain release",
           "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks compile /repo's own sources with sanitizers and link vz/shim.c with -Wl,--wrap", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "all checks: python3 -m vz <id> [--tier thorough] [--seed N] [--replay file]; see DESIGN.md"},
          open(V + "/MANIFEST.json", "w"), indent=1)
