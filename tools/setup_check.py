"""setup: there is nothing to build; parse every specification module so that a broken one shows up here"""
import os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
mods = sorted(glob.glob(os.path.join(V, "spec", "*.tla")))
p = subprocess.run(["java", "-cp", CP, "-DTLA-Library=" + os.path.join(V, "spec"), "tla2sany.SANY"] + mods, cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode: print(p.stdout[-3000:])
print(len(mods), "modules parsed" if not p.returncode else "modules: errors")
sys.exit(p.returncode)
