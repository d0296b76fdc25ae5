"""MANIFEST.json from the list of checks (properties without a check go to not_applicable)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
src = open(os.path.join(V, "harness", "run.py")).read()
ns = {}
a = src.index("MODULES = {")
exec(src[a:src.index("}", a) + 1], ns)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ns["MODULES"]:
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python harness/run.py %s quick" % i,
                       "thorough_cmd": "/opt/venv/bin/python harness/run.py %s thorough" % i,
                       "technique": "TLA+ specification checked with TLC: exhaustive design model, TLC-generated behaviours replayed on agnpy, recorded traces validated by TLC against the specification",
                       "level": "model_checking", "level_note": NOTE.get(i, "")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
fixes = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "AGNPY_VERIF", "enable": "no hooks are needed: the checks only use agnpy's public API", "source_commits": fixes},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
