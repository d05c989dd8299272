"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, V); sys.dont_write_bytecode = True
import importlib
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
from manifest_notes import TECH, NOTE
NA = {"C15": "not built: the technique applies (translate a generated program, compile it with g++ against the runtime, compare the traces), but every case costs a C++ compilation and the time went to the other properties; see DESIGN.md"}
checks = []; na = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": TECH[i], "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not built")
