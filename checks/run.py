#!/usr/bin/env python3
"""run.py PID [PID...]: decide properties on /repo's current source.  Exit 0 held, 1 violated, 2 analysis broken."""
import importlib, os, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
def main():
    rc = 0
    r = subprocess.run(["bash", vlib.VERIF + "/engine/build.sh"], capture_output=True, text=True)
    if r.returncode: print("cannot build the exporter:\n" + r.stderr); return 2
    for pid in sys.argv[1:]:
        c = vlib.Check(pid, os.environ.get("VERIF_TIER", "quick"))
        try:
            importlib.import_module(pid.lower()).run(c)
            r = c.finish()
        except vlib.Broken as e:
            import shutil; shutil.rmtree(c.build, ignore_errors=True)
            print("%s: analysis broken: %s" % (pid, e)); r = 2
        rc = max(rc, r) if rc != 1 else 1
    return rc
if __name__ == "__main__":
    try: sys.exit(main())
    except Exception:
        traceback.print_exc(); sys.exit(2)
