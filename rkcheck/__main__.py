"""python3 -m rkcheck C01 [--tier quick|thorough]"""
import argparse, importlib, os, sys, traceback
from .report import Report


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    R = Report(a.pid, a.tier, seed)
    R.root = a.root
    err = None
    try:
        mod = importlib.import_module("rkcheck.checks.%s" % a.pid.lower())
        mod.check(R)
    except Exception as e:  # an analysis that cannot finish gives no verdict
        err = "%s: %s" % (type(e).__name__, e)
        if os.environ.get("RKCHECK_DEBUG"):
            traceback.print_exc()
    sys.exit(R.finish(err))


import threading
threading.stack_size(512 * 1024 * 1024)
rc = [2]


def _run():
    try:
        main()
    except SystemExit as e:
        rc[0] = e.code


t = threading.Thread(target=_run)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
