#!/usr/bin/env python3
"""Run each planted change's check on a scratch copy with the change applied (development aid).
usage: runseeds.py [id prefix...]"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = os.path.join(V, "seeded", sid)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = tempfile.mkdtemp(prefix="rs_")
    try:
        subprocess.check_call(["cp", "-a", "/repo", t + "/repo"])
        subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=t + "/repo")
        t0 = time.time()
        r = subprocess.run([os.path.join(V, "check"), pid], env=dict(os.environ, VERIF_REPO=t + "/repo", VERIF_EVIDENCE=t + "/ev", VERIF_SEED="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = r.returncode == 1 and "VIOLATION property=%s " % pid in r.stdout
        cl = [l.strip() for l in r.stdout.splitlines() if ": clause" in l][:2]
        return sid, pid, ok, r.returncode, round(time.time() - t0), cl, r.stdout[-500:]
    finally:
        shutil.rmtree(t)


ids = [s for s in sorted(os.listdir(os.path.join(V, "seeded"))) if not sys.argv[1:] or any(s.startswith(a) for a in sys.argv[1:])]
with ThreadPoolExecutor(3) as ex:
    for sid, pid, ok, rc, w, cl, tail in ex.map(one, ids):
        print("%-28s %s %s rc=%d %ds %s" % (sid, pid, "caught" if ok else "MISSED", rc, w, cl), flush=True)
        if rc not in (0, 1):
            print(tail)
