#!/usr/bin/env python3
"""Development aid: mechanical mutants of one source file, run against the checks; prints those no check reports.
usage: automut.py FILE(under litevideo) CHECK,CHECK,.. [stride [offset]]"""
import ast, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, ids = sys.argv[1], sys.argv[2].split(",")
stride = int(sys.argv[3]) if len(sys.argv) > 3 else 1
offset = int(sys.argv[4]) if len(sys.argv) > 4 else 0
src = open("/repo/litevideo/" + f).read()
lines = src.split("\n")
starts = [0]
for l in lines:
    starts.append(starts[-1] + len(l.encode()) + 1)
raw = src.encode()


def pos(n):
    return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset


def text(n):
    a, b = pos(n)
    return raw[a:b].decode()


muts = []


def add(n, new, what):
    a, b = pos(n)
    if raw[a:b].decode() != new:
        muts.append((a, b, new, "%d: %s -> %s" % (n.lineno, what, new[:60].replace("\n", " "))))


BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.BitXor: ["&"], ast.Mult: ["+"], ast.FloorDiv: []}
CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"]}
doc = set()
for n in ast.walk(ast.parse(src)):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
        doc.add(id(n.value))
PAIRS = [("hsync", "vsync"), ("c0", "c1"), ("c1", "c2"), ("sof", "eof"), ("valid", "ready"), ("first", "last"), ("cb", "cr"), ("r", "b"), ("re", "r"),
         ("master", "slave"), ("hres", "vres"), ("hscan", "vscan"), ("inc", "dec"), ("pix", "sys"), ("early", "late"), ("_m", "_s")]
for n in ast.walk(ast.parse(src)):
    if id(n) in doc:
        continue
    if isinstance(n, ast.Constant) and type(n.value) is int:
        add(n, str(n.value + 1), text(n))
        if n.value > 0:
            add(n, str(n.value - 1), text(n))
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
        for o in BIN[type(n.op)]:
            add(n, "((%s) %s (%s))" % (text(n.left), o, text(n.right)), text(n))
        if isinstance(n.op, (ast.BitAnd, ast.BitOr)):
            add(n, text(n.left), text(n))
            add(n, text(n.right), text(n))
    elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
        add(n, "((%s) %s (%s))" % (text(n.left), CMP[type(n.ops[0])][0], text(n.comparators[0])), text(n))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
        add(n, text(n.operand), text(n))
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "eq":
        add(n, "[]", text(n))
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("If", "NextState", "NextValue"):
        add(n, "[]" if n.func.id != "If" else "If(1, %s)" % ", ".join(text(a) for a in n.args[1:]), text(n)[:50])
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Mux" and len(n.args) == 3:
        add(n, "Mux(%s, %s, %s)" % (text(n.args[0]), text(n.args[2]), text(n.args[1])), text(n))
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Signal" and (n.args or n.keywords):
        if n.args:
            add(n.args[0], "(%s) - 1" % text(n.args[0]), text(n))
        for k in n.keywords:
            if k.arg in ("max",):
                add(k.value, "(%s)//2" % text(k.value), text(n))
    elif isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
        nm = n.attr if isinstance(n, ast.Attribute) else n.id
        for a, b in PAIRS:
            for x, y in ((a, b), (b, a)):
                new = nm.replace(x, y) if len(x) > 2 or nm == x else None
                if new and new != nm and new in src:
                    add(n, (text(n.value) + "." if isinstance(n, ast.Attribute) else "") + new, text(n))
seen, uniq = set(), []
for m in muts:
    if m[:3] not in seen:
        seen.add(m[:3])
        uniq.append(m)
uniq.sort()
uniq = uniq[offset::stride]


def one(m):
    a, b, new, what = m
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        open(r + "/litevideo/" + f, "wb").write(raw[:a] + new.encode() + raw[b:])
        errs = 0
        for i in ids:
            try:
                q = subprocess.run([V + "/check", i], env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d), timeout=300, capture_output=True, text=True)
                rc = q.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            if rc == 1:
                return what, "caught " + i
            if rc:
                errs += 1
        return what, "error" if errs == len(ids) else "error %d" % errs if errs else "SURVIVED"
    finally:
        shutil.rmtree(d)


cnt = {}
with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
    for w, r in ex.map(one, uniq):
        k = r.split()[0]
        cnt[k] = cnt.get(k, 0) + 1
        if k not in ("caught",) and r != "error" or k == "error":
            print("%-9s %s" % (r, w), flush=True)
print(f, len(uniq), cnt)
