#!/opt/venv/bin/python
"""check.py <property id>: runs one check (see MANIFEST.json)"""
import sys, os, importlib, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
# a fixed hash seed makes every run of a check explore the same cases
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, here); sys.path.insert(0, os.path.join(here, "lib"))
import vf
if __name__ == "__main__":
    vf.setup_env()
    pid = sys.argv[1]
    try:
        rc = importlib.import_module("checks." + pid.lower()).run()
    except vf.Machinery as ex:
        print("MACHINERY:", ex); rc = 3
    except Exception:
        traceback.print_exc(); rc = 3
    sys.stdout.flush()
    sys.exit(rc)
