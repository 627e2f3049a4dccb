#!/opt/venv/bin/python
"""Not a check: reduce.py <property> <n>: shrinks the program of replay n while the tool still fails on it, or
   lupaz8 still sees its output behave differently"""
import sys, os, json, re, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, here + "/lib"]
import vf, luasem, p8
from checks import progs
vf.setup_env()
d = json.load(open(f"{here}/evidence/replays/{sys.argv[1]}.json"))[int(sys.argv[2])]
c = d["replay"]["case"]; opts = c["options"] if isinstance(c["options"], list) else c["options"].split(" ")
if len(sys.argv) > 3: opts = sys.argv[3:]
os.chdir(tempfile.mkdtemp())
def outcome(src):
    try: a, e = luasem.native([ord(x) for x in src])
    except Exception: return None
    if e: return None
    r = progs.transform((src, c.get("version", 42), [opts]))[0]
    if r["status"] != "ok": return "crash" + re.sub("[0-9]", "", r["status"])[:40]
    b, e2 = luasem.native(r["code"])
    if e2: return "error" if "attempt" not in e2 else "rterror"
    return "same" if a == b else "diff"
src = c["program"]
want = outcome(src)
print("outcome", want)
if want in (None, "same"): sys.exit()
toks = re.findall(r"\n|--\[\[.*?\]\]|\w+|\s+|\"(?:\\.|[^\"\\])*\"|'(?:\\.|[^'\\])*'|.", src, re.S)
n = max(1, len(toks) // 2)
while n >= 1:
    i = 0; ch = False
    while i < len(toks):
        t = toks[:i] + toks[i+n:]
        if outcome("".join(t)) == want: toks = t; ch = True
        else: i += max(1, n // 2)
    if not ch or n > 1: n = n // 2 if n > 1 else (1 if ch else 0)
print("".join(toks)); print("----", opts)
r = progs.transform(("".join(toks), 42, [opts]))[0]
print("".join(map(chr, r["code"])) if r["code"] else r["status"])
