#!/opt/venv/bin/python
"""Not a check: compares LuaSem with lupaz8 (a PICO-8 compatible interpreter) on generated programs, both ways of being wrong."""
import sys, os, random
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [here, here + "/lib"]
import vf, luasem, genlua, p8lua
vf.setup_env()
n, seed = int(sys.argv[1]), sys.argv[2] if len(sys.argv) > 2 else "1"
progs = []
stat = {}
for i in range(n):
    src = genlua.program(random.Random(f"cal{seed}{i}"))
    code = [ord(c) for c in src]
    nat, err = luasem.native(code)
    try: c = luasem.case([code], ["o"])
    except p8lua.LuaError as ex:
        print("PARSE", ex, "native:", err); print(src); stat["parse"] = stat.get("parse", 0) + 1; continue
    progs.append((src, nat, err, c))
v, st = vf.tlc_verdicts("LuaSem", [p[3] for p in progs], base=luasem.base())
import re
def norm(o): return str(o)
bad = 0
for (src, nat, err, c), x in zip(progs, v):
    k = x[0] + ("" if x[0] != "skip" else ":" + x[1]) + (" native-error" if err else "")
    stat[k] = stat.get(k, 0) + 1
    if x[0] == "ran":
        # TLA+ value -> python
        t = x[1].replace("<<", "[").replace(">>", "]").replace(chr(92) + chr(34), chr(34))
        mine = eval(t)
        def conv(b): return "".join(chr(q) for q in b)
        m2 = []
        for o in mine:
            if o[0] == "print": m2.append(("print",) + tuple(conv(q) for q in o[1]))
            elif o[0] == "api": m2.append(("api", o[1]) + tuple(conv(q) for q in o[2]))
        if err or m2 != [tuple(q) for q in nat]:
            bad += 1
            if bad < 4:
                print("DIFF", err); print(src)
                for a, b in zip(m2, nat):
                    if a != tuple(b): print("  tla:", a, "native:", b); break
                print(len(m2), len(nat))
    elif x[0] == "skip" and "-v" in sys.argv: print("SKIP", x[1], err); print(src)
    elif x[0] == "uninterpretable": print(x[1][:300]); print(src)
print(stat, "bad", bad, st["wall"])
