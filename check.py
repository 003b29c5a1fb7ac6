#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only REGEX] [--replay FILE] [-v]
Decides one property: proves every contract registered for it on /repo's current sources, and replays the same
contracts on the compiled code.  Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: nothing could be decided."""
import os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
NG = "/opt/ngs/6.2.2405/lib"
LP = f"{NG}:{NG}/python3.12/site-packages/netgen_mesher.libs"
VT = "/opt/veriftools/pyvenv/bin/python3"
if os.environ.get("VC_STAGE") != "1":
    env = dict(os.environ, VC_STAGE="1", LD_LIBRARY_PATH=LP, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", NGS_NUM_THREADS="1")
    import shutil
    py = shutil.which("python3-vt") or VT
    os.execve(py, [py, os.path.abspath(__file__), *sys.argv[1:]], env)
sys.path[:0] = [HERE + "/vc", HERE + "/contracts"]
import argparse
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("--replay")
ap.add_argument("-v", action="store_true"); ap.add_argument("--noproof", action="store_true"); ap.add_argument("--noreplay", action="store_true")
a = ap.parse_args()
import driver
sys.exit(driver.main(a))
