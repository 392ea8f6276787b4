#!/usr/bin/env python3
"""Sensitivity runs: applies each change of a list to a scratch copy of /repo, makes sure it
builds and passes the stable tests, and runs the simulator against the copy.

usage: mutate.py LIST.py [-k SUBSTR] [-p PROP,PROP] [--quiet-expected] [--notest]
LIST.py defines M = [(id, [props], [(file, old, new), ...], comment), ...]
"""
import sys, os, subprocess, shutil, json, argparse, tempfile, time
ap = argparse.ArgumentParser()
ap.add_argument("list"); ap.add_argument("-k", default=""); ap.add_argument("--from", dest="frm", default=""); ap.add_argument("-p", default="")
ap.add_argument("--quiet-expected", action="store_true"); ap.add_argument("--notest", action="store_true")
ap.add_argument("--diff", default=""); ap.add_argument("--extra", default="")
a = ap.parse_args()
ns = {}; exec(open(a.list).read(), ns); M = ns["M"]
env = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off")
base = json.load(open("/opt/vp/BASELINE.json"))
def stable(d):
    t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + d)
    f = d + ".test.sh"; open(f, "w").write(t)
    out = d + ".json"
    subprocess.run(["bash", f, out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = json.load(open(out)); os.unlink(f); os.unlink(out)
    return r
def passed(r):
    for k in ("passed", "pass", "stable"):
        if k in r: return set(map(str, r[k]))
    raise SystemExit(str(r)[:300])
want = passed(base)
snap = tempfile.mkdtemp(prefix="mutverif.", dir="/tmp") # the simulator as it is now
subprocess.run("cd %s && cp -a run.sh sim KNOWN_FINDINGS %s/" % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), snap), shell=True, check=True)
import atexit; atexit.register(lambda: shutil.rmtree(snap, ignore_errors=True))
tot = {}
for (mid, props, edits, why) in M:
    if a.frm and mid == a.frm: a.frm = ""
    if a.frm or a.k and a.k not in mid: continue
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp"); os.rmdir(d)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        bad = False
        for e in edits:
            f, old, new = e[:3]
            cnt = e[3] if len(e) > 3 else 1
            s = open(d + "/" + f).read()
            if s.count(old) < 1 or (cnt == 1 and s.count(old) != 1):
                print(mid, "EDIT DOES NOT APPLY (%d matches)" % s.count(old), f, repr(old[:60])); bad = True; break
            open(d + "/" + f, "w").write(s.replace(old, new))
        if bad: continue
        subprocess.run(["gofmt", "-l", "-w", "."], cwd=d, env=env, stdout=subprocess.DEVNULL)
        b = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode: print(mid, "DOES NOT BUILD", b.stderr[:400]); continue
        if not a.notest:
            miss = want - passed(stable(d))
            if miss: print(mid, "TESTS FAIL", sorted(miss)[:4]); continue
        if a.diff:
            os.makedirs(a.diff + "/" + mid, exist_ok=True)
            open(a.diff + "/" + mid + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout)
            print(mid, "ok"); continue
        for p in (a.p.split(",") if a.p else props):
            t0 = time.time()
            r = subprocess.run(["bash", snap + "/run.sh", p, "quick"] + a.extra.split(), env=dict(env, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("what:")]
            st = {0: "quiet", 1: "CAUGHT"}.get(r.returncode, "rc%d" % r.returncode)
            tot[st] = tot.get(st, 0) + 1
            print("%-28s %s %-7s %3ds %s" % (mid, p, st, time.time() - t0, (" ".join(v) if v else (r.stderr[-300:] if r.returncode not in (0, 1) else ""))[:230]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
print(tot)
