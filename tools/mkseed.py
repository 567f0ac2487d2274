#!/usr/bin/env python3
"""Make /verif/seeded/<id> from a description, after confirming it in a scratch copy.
usage: mkseed.py FILE.py [ids]   FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo)]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
SH = '#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    t = tempfile.mkdtemp(prefix="seed_")
    repo = os.path.join(t, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        for f, old, new in s["edits"]:
            p = os.path.join(repo, "litevideo", f)
            x = open(p).read()
            assert x.count(old) == 1, (s["id"], f, x.count(old), old)
            open(p, "w").write(x.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = run([os.path.join(d, "demo.sh")], "/repo", timeout=300)
        b = run([os.path.join(d, "demo.sh")], repo, timeout=300)
        # the repository's own stable tests, by the same driver as the baseline but on the copy
        bad = []
        for tst in sorted(stable):
            pth, name = os.path.split(tst)
            r = run(["/opt/venv/bin/python", name + ".py"], os.path.join(repo, pth), env=dict(os.environ, PYTHONPATH=repo), timeout=600) if not os.environ.get("NOTEST") else None
            if r is not None and r.returncode:
                bad.append((tst, r.stdout[-300:]))
        ok = a.returncode == 0 and b.returncode != 0 and not bad
        print("%-22s %s demo clean=%d patched=%d tests_bad=%d" % (s["id"], "OK " if ok else "BAD", a.returncode, b.returncode, len(bad)), flush=True)
        if not ok:
            print(a.stdout[-800:], "\n--\n", b.stdout[-800:], bad)
        elif os.environ.get("SHOW"):
            print(b.stdout[-400:])
    finally:
        shutil.rmtree(t)
