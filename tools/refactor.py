#!/usr/bin/env python3
"""Development aid: writes a behaviour-preserving rewrite of a tree's design files (local signals and FSM states renamed, operands of
& and | swapped, runs of independent `self.comb +=` statements reversed, bodies of loops and constructors split into helper
functions is left to the reader).  refactor.py SRC DST"""
import ast, os, shutil, sys
src, dst = sys.argv[1:3]
ALIAS = "--alias" in sys.argv        # vendor primitives connected through intermediate signals
HELP = """

def _through(m, v, out):
    from migen.fhdl.structure import _Value, ClockSignal, ResetSignal, Constant
    if not isinstance(v, _Value) or isinstance(v, Constant):
        return v
    s = Signal(1 if isinstance(v, (ClockSignal, ResetSignal)) else len(v))
    m.comb += (v.eq(s) if out else s.eq(v))
    return s
"""
shutil.copytree(src, dst, dirs_exist_ok=True, ignore=shutil.ignore_patterns(".git"))


class R(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        names = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") in ("Signal", "FSM"):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        names.add(t.id)
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = "w_" + n.id
        self.generic_visit(f)
        # reverse runs of comb statements whose targets differ
        body, run = [], []

        def targets(s):
            return {ast.unparse(n.func.value) for n in ast.walk(s) if isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "eq"}

        def special(s):
            return any(isinstance(n, ast.Attribute) and n.attr == "connect" for n in ast.walk(s))
        for s in f.body:
            ok = isinstance(s, ast.AugAssign) and ast.unparse(s.target) == "self.comb" and not special(s)
            base = lambda t: t.split("[")[0]
            if ok and all(not ({base(x) for x in targets(s)} & {base(x) for x in targets(q)}) for q in run):
                run.append(s)
            else:
                body += run[::-1]
                run = []
                if ok:
                    run = [s]
                else:
                    body.append(s)
        f.body = body + run[::-1]
        return f

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.BitAnd, ast.BitOr)):
            n.left, n.right = n.right, n.left
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if ALIAS and getattr(f, "id", "") == "Instance":
            for k in n.keywords:
                if k.arg and k.arg[:2] in ("i_", "o_") and not isinstance(k.value, ast.Constant) and "pad" not in ast.unparse(k.value):
                    k.value = ast.Call(ast.Name("_through"), [ast.Name("self"), k.value, ast.Constant(k.arg[0] == "o")], [])
        nm = getattr(f, "attr", getattr(f, "id", ""))
        if nm in ("act", "NextState", "ongoing", "before_entering", "before_leaving", "delayed_enter") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            n.args[0] = ast.Constant("ST_" + n.args[0].value)
        for k in n.keywords:
            if k.arg == "reset_state" and isinstance(k.value, ast.Constant):
                k.value = ast.Constant("ST_" + k.value.value)
        return n


for d, _, fs in os.walk(os.path.join(dst, "litevideo")):
    if "test" in d:
        continue
    for x in fs:
        if x.endswith(".py"):
            p = os.path.join(d, x)
            t = R().visit(ast.parse(open(p).read()))
            open(p, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n" + (HELP if ALIAS else ""))
