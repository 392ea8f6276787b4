#!/usr/bin/env python3
"""seeded.py [-k SUBSTR] [-p PROP,..]: runs each planted change's own property check (or the given
ones) against a scratch copy of /repo with the change applied."""
import sys, os, subprocess, shutil, json, tempfile, time, argparse
ap = argparse.ArgumentParser(); ap.add_argument("-k", default=""); ap.add_argument("-p", default=""); ap.add_argument("--all", action="store_true")
a = ap.parse_args()
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for bid in sorted(os.listdir(root + "/seeded")):
    if a.k and a.k not in bid: continue
    meta = json.load(open(root + "/seeded/%s/meta.json" % bid))
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp"); os.rmdir(d)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        r = subprocess.run(["git", "apply", root + "/seeded/%s/patch.diff" % bid], cwd=d, capture_output=True, text=True)
        if r.returncode: print(bid, "DOES NOT APPLY", r.stderr); continue
        props = a.p.split(",") if a.p else [meta["property"]]
        if a.all: props = ["C%02d" % i for i in range(1, 15)]
        for p in props:
            t = time.time()
            r = subprocess.run(["bash", root + "/run.sh", p, "quick"], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"), capture_output=True, text=True)
            what = [l for l in (r.stdout + r.stderr).splitlines() if l.startswith("what:")]
            print("%-18s %s %s %4ds %s" % (bid, p, {0: "quiet ", 1: "CAUGHT"}.get(r.returncode, "exit %d" % r.returncode), time.time() - t, what[0][:170] if what else ""), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
