"""helpers for the demonstrations: run the tool in a scratch folder, run Lua in lupaz8"""
import os, subprocess, sys, tempfile, atexit, shutil
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPO = os.getcwd()
DIR = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, DIR, True)
def path(n): return os.path.join(DIR, n)
def put(n, data):
    with open(path(n), "wb") as f: f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
    return path(n)
def get(n):
    with open(path(n), "rb") as f: return f.read()
def tool(*args, script="shrinko8.py"):
    """-> exit code, stdout, stderr (file arguments are relative to the scratch folder)"""
    p = subprocess.run([PY, os.path.join(REPO, script)] + list(args), cwd=DIR, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
def lua(src, *opts):
    """code after the tool"""
    put("a.lua", src)
    rc, out, err = tool("a.lua", "b.lua", *opts)
    if rc: fail(f"the tool failed: {rc} {err[-300:]}")
    return get("b.lua").decode("utf-8")
RUN = r'''
import sys
from lupaz8 import luaz8
rt = luaz8.LuaRuntime(encoding="latin1", source_encoding="latin1", overflow_handler=True)
src = sys.stdin.buffer.read().decode("latin1")
rt.execute("__o={} __ts=tostr function print(...) local s='' for i=1,select('#',...) do s=s..__ts((select(i,...)))..' ' end __o[#__o+1]=s end")
err = None
try: rt.execute(src)
except Exception as ex: err = "error"
o = rt.globals()["__o"]
for i in range(1, len(o) + 1): print(o[i])
if err: print(err)
'''
def run(src):
    """what a program prints"""
    p = subprocess.run([PY, "-c", RUN], input=src.encode("latin1") if isinstance(src, str) else src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if p.returncode: fail("lupaz8: " + p.stderr.decode()[-300:])
    return p.stdout.decode("utf-8", "replace")
def fail(msg):
    print("DEMO FAILS:", msg); sys.exit(1)
def expect(cond, msg):
    if not cond: fail(msg)
def same(src, *opts):
    b = lua(src, *opts)
    x, y = run(src), run(b)
    expect("error" not in x, "the program itself fails: " + x)
    expect(x == y, f"behaves differently:\n{x!r}\n{y!r}\n{b}")
