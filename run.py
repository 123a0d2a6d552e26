#!/usr/bin/env python3
"""Entry point of every check.

    run.py C01                 quick tier (or $VERIF_TIER)
    run.py C01 --tier thorough
    run.py C01 --replay FILE   run one saved case (no generation), exit 1 if it still fails
    run.py --setup             sanity check of the tool chain, builds the fault-injection shim

It re-executes itself under python3-vt (which has hypothesis) with a fixed hash seed and
a private byte-code cache, so that only /repo's current sources are ever executed.
"""
import os, sys, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(VT):
    VT = shutil.which("python3-vt") or sys.executable

if os.environ.get("MBV_CHILD") != "1":
    env = dict(os.environ)
    cache = tempfile.mkdtemp(prefix="mbv-pyc-")
    env.update(MBV_CHILD="1", PYTHONHASHSEED="0", PYTHONPYCACHEPREFIX=cache,
               MBV_CACHE=cache, PYTHONWARNINGS="ignore", LC_ALL="C.UTF-8", LANG="C.UTF-8",
               TZ="UTC")
    env.pop("PYTHONPATH", None)
    import subprocess
    try:
        rc = subprocess.call([VT, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=HERE)
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    sys.exit(rc)

sys.path.insert(0, HERE)
from mbv import engine
sys.exit(engine.main(sys.argv[1:]))
