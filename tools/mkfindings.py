"""known_findings.json: open findings (hand-written below) and the repairs recorded from /repo's fix commits."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(V, "tools", "fix_props.json")))
OPEN = json.load(open(os.path.join(V, "tools", "open_findings.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = list(OPEN)
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    s = s[4:].strip()
    p = None
    for k, v in PROP.items():
        if s.startswith(k): p = v
    if p is None: print("no property for:", s); continue
    out.append({"property": p, "status": "fixed", "commit": h, "what": s, "line": "fixed: property=%s %s %s" % (p, h, s)})
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out), "entries")
