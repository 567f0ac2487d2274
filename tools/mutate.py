"""Development aid: apply (file, old, new) to a scratch copy of the repository and run checks on it.
usage: mutate.py LIST.py     LIST.py defines MUTS = [(name, file, old, new, [check ids])]"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def one(m):
    name, f, old, new, ids = m
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        p = r + "/litevideo/" + f
        s = open(p).read()
        if s.count(old) < 1:
            return name, "NOT APPLICABLE"
        open(p, "w").write(s.replace(old, new, 1))
        res = []
        for i in ids:
            q = subprocess.run([VERIF + "/check", i], env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d), timeout=300,
                               capture_output=True, text=True)
            cl = sorted(set(l.split("clause")[1].strip() for l in q.stdout.splitlines() if ": clause " in l))
            res.append("%s:%s%s" % (i, {0: "quiet", 1: "CAUGHT", 2: "ERROR"}.get(q.returncode, q.returncode), cl or ""))
            if q.returncode == 2:
                res.append((q.stdout + q.stderr)[-600:])
        return name, " ".join(res)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(4) as ex:
    for n, r in ex.map(one, [m for m in ns["MUTS"] if not only or m[0] in only]):
        print("%-40s %s" % (n, r), flush=True)
