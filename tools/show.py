#!/usr/bin/env python3
"""prints the replays of a check readably"""
import sys, json
for d in json.load(open(f"/verif/evidence/replays/{sys.argv[1]}.json"))[int(sys.argv[2]) if len(sys.argv) > 2 else 0:][:int(sys.argv[3]) if len(sys.argv) > 3 else 3]:
    print("=====", d["what"][:500])
    c = d["replay"]["case"]
    if isinstance(c, dict):
        for k, v in c.items():
            print(f"--- {k}:"); print(v if not isinstance(v, (dict, list)) else json.dumps(v)[:1500])
    else: print(json.dumps(c)[:1500])
