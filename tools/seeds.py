#!/opt/venv/bin/python
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeddefs.py and tries each one out.
   seeds.py make [ids]     patch.diff, demo.sh, meta.json
   seeds.py try [ids]      in a scratch copy: demo on the unchanged tree, patch, stable tests, demo again
   seeds.py check [ids]    the check of the property against /repo with the patch (applied and undone)"""
import sys, os, json, subprocess, shutil, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeddefs import SEEDS
def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")
def make(s):
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    out = ""
    files = {}
    for f, old, new in s["edits"]:
        t = files.setdefault(f, [open("/repo/" + f, newline="").read()] * 2)
        if "\r\n" in t[0]: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert t[1].count(old) == 1, (s["id"], f, old, t[1].count(old))
        files[f] = [t[0], t[1].replace(old, new)]
    for f, (a, b) in files.items():
        out += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", newline="").write(out)
    open(d + "/demo.py", "w").write("from u import *\n" + s["demo"].strip() + "\n")
    shutil.copy(V + "/tools/seedlib/u.py", d + "/u.py")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
def tryout(s):
    d = os.path.join(V, "seeded", s["id"])
    w = "/tmp/seedtry"; shutil.rmtree(w, True); os.makedirs(w)
    sh(f"cp -a /repo {w}/repo; cp -a {d} {w}/seed; rm {w}/seed/patch.diff {w}/seed/meta.json")
    r0, o0 = sh(f"bash {w}/seed/demo.sh", cwd=w + "/repo")
    ra, oa = sh(f"git apply {d}/patch.diff", cwd=w + "/repo")
    r1, o1 = sh(f"bash {w}/seed/demo.sh", cwd=w + "/repo")
    # the tests run in /repo itself
    sh(f"git -C /repo apply {d}/patch.diff")
    try:
        sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    finally: sh("git -C /repo checkout -- .")
    base, now = json.load(open("/opt/vp/BASELINE.json")), json.load(open("/tmp/seedtest.json"))
    def names(x): return set(x.get("passed", x.get("stable", x.get("pass", []))))
    missing = names(base) - names(now)
    shutil.rmtree(w, True)
    ok = r0 == 0 and ra == 0 and r1 != 0 and not missing
    print(("OK  " if ok else "BAD ") + s["id"], "" if ok else f"clean demo {r0} {o0[-300:]} apply {ra} {oa[-200:]} patched demo {r1} {o1[-300:]} missing tests {sorted(missing)[:5]}", flush=True)
    if ok: print("      ", o1.strip()[:200].replace("\n", "|"))
def check(s):
    d = os.path.join(V, "seeded", s["id"])
    rc, o = sh(f"git -C /repo apply {d}/patch.diff")
    try:
        rc, o = sh("VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python check.py " + s["property"], cwd=V)
    finally: sh("git -C /repo checkout -- .")
    hit = rc == 1 and "VIOLATION property=" + s["property"] in o
    print(("CAUGHT " if hit else "MISSED ") + s["id"], rc, o.strip().split("\n")[-1][:150], flush=True)
if __name__ == "__main__":
    sel = [s for s in SEEDS if len(sys.argv) < 3 or any(a in s["id"] for a in sys.argv[2:])]
    for s in sel: dict(make=make, check=check)[sys.argv[1]](s) if sys.argv[1] != "try" else (make(s), tryout(s))
