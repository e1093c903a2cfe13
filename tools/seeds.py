"""seeds.py [ids]: development aid, no check uses it.  Applies each planted bug of
/verif/seeded to a scratch copy of /repo and runs the check of its property there."""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess as sp
import sys
import tempfile
import time

BASE = os.environ.get("BASE", "/verif")


def one(s):
    meta = json.load(open(os.path.join(s, "meta.json")))
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        for f in ("src", "Cargo.toml", "Cargo.lock"):
            sp.run(["cp", "-a", "/repo/" + f, d], check=True)
        if sp.run(["patch", "-s", "-p1", "-i", os.path.join(s, "patch.diff")], cwd=d).returncode:
            return s, "patch failed", 0
        t = time.time()
        r = sp.run([BASE + "/check", meta["property"]], cwd=BASE, env=dict(os.environ, VP_REPO=d, VP_EVID=d, VP_JOBS=os.environ.get("VP_JOBS", "3")), capture_output=True, text=True)
        return s, "%s rc=%d%s" % (meta["property"], r.returncode, "" if "VIOLATION property=%s" % meta["property"] in r.stdout else " MISSED"), time.time() - t
    finally:
        shutil.rmtree(d, ignore_errors=True)


ss = sorted(glob.glob("/verif/seeded/*/"))
if len(sys.argv) > 1:
    ss = [s for s in ss if os.path.basename(s[:-1]) in sys.argv[1:]]
with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for s, r, t in ex.map(one, ss):
        print("%-16s %s %.0fs" % (os.path.basename(s[:-1]), r, t), flush=True)
