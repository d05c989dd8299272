"""Extracts nullc source snippets from the string literals of /repo/tests and the module sources, as seeds of the C05 mutator."""
import re, os, json, glob
REPO = os.environ.get("NULLC_REPO", "/repo")
LIT = re.compile(r'"((?:[^"\\\n\r]|\\.)*)"')
RAW = re.compile(r'R"\((.*?)\)"', re.S)
ESC = {"n": "\n", "r": "", "t": "\t", "\\": "\\", '"': '"', "'": "'", "0": "\0"}
def unesc(s): return re.sub(r'\\\r?\n|\\(.)', lambda m: ESC.get(m.group(1), m.group(0)) if m.group(1) else "", s)
out = []; seen = set()
def add(s):
    s = s.replace("\r", "").strip()
    if len(s) < 12 or len(s) > 4000 or s in seen or not re.search(r'[;{(]', s): return
    if any(ord(c) > 126 for c in s): return
    seen.add(s); out.append(s)
for f in sorted(glob.glob(REPO + "/tests/Test*.cpp")):
    t = open(f, encoding="latin-1").read().replace("\r\n", "\n")
    t = re.sub(r'\\\n', "", t)
    for m in RAW.finditer(t): add(m.group(1))
    # adjacent literals
    for m in re.finditer(r'(?:"(?:[^"\\\n]|\\.)*"\s*)+', t):
        add("".join(unesc(x) for x in LIT.findall(m.group(0))))
for f in sorted(glob.glob(REPO + "/Modules/**/*.nc", recursive=True)) + sorted(glob.glob(REPO + "/tests/nullc_in_nullc/*.nc")):
    t = open(f, encoding="latin-1").read().replace("\r", "")
    # split long modules at top-level boundaries
    for part in re.split(r'\n(?=\w)', t):
        add(part)
json.dump(out, open("/verif/corpus/snippets.json", "w"), indent=0)
print(len(out), sum(map(len, out)))
# which snippets are complete programs (with an import of std.math when that is what they miss)
import sys
sys.path.insert(0, "/verif/lib")
import worker
w = worker.Worker("plain"); good = []; bad = []
for s in out:
    for pre in ("", "import std.math;\n", "import std.vector;\nimport std.list;\nimport std.hashmap;\nimport std.math;\nimport std.range;\nimport std.string;\n"):
        r = w.run([["analyze", pre + s]], timeout_ms=4000)
        if r[0] is not None and r[0].ok: good.append(pre + s); break
    else: bad.append(s)
bad = [s for s in bad if len(s) < 300]
json.dump({"good": good, "bad": bad}, open("/verif/corpus/snippets.json", "w"), indent=0)
print(len(good), len(bad), sum(map(len, good)), sum(map(len, bad)))
