#!/usr/bin/env python3
"""Development aid: rare-trigger mutants.  The elaborated design of one block is changed so that one assignment misbehaves
only when two or three register conditions meet (optionally only from their n-th meeting on).
  trig.py PID list            catalogue the block classes the check elaborates
  trig.py PID one SEED        run the check with mutant SEED; prints caught / MISSED / never (trigger not reached) / error
  trig.py PID N [FIRST]       run N of them side by side"""
import os, random, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONPATH="%s/lib:%s/checks:%s" % (V, V, os.environ.get("VERIF_REPO", "/repo")), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")


def child(pid, seed):
    import atexit
    import migen
    from migen.fhdl.module import Module
    from migen.fhdl.visit import NodeTransformer
    from migen.fhdl.structure import _Assign, If, Signal, Constant, _Fragment, Cat, Case, _Slice
    from migen.fhdl.tools import list_targets
    import fastsim
    owner = {}        # signal -> (class name, instance number, index)
    perinst = {}      # (class, instance) -> ordered signals
    count = {}
    orig = Module.get_fragment

    def walk(m):
        if getattr(m, "_trig_seen", False):
            return
        m._trig_seen = True
        cls = type(m)
        name = cls.__name__
        lv = cls.__module__.startswith("litevideo") or name == "FSM"
        if lv:
            tg = set()
            try:
                tg |= set(list_targets(m._fragment.comb))
                for s in m._fragment.sync.values():
                    tg |= set(list_targets(s))
            except Exception:
                pass
            if name == "FSM" and getattr(m, "finalized", False):
                tg |= {m.state}
            k = count.get(name, 0)
            count[name] = k + 1
            l = sorted(tg, key=lambda s: s.duid)
            perinst[name, k] = l
            for i, s in enumerate(l):
                owner.setdefault(s, (name, k, i))
        for n, x in getattr(m, "_submodules", []):
            walk(x)

    def gf(self):
        r = orig(self)
        try:
            walk(self)
        except AttributeError:
            pass
        return r
    Module.get_fragment = gf
    cat = {}
    info = dict(applied=0)
    rng0 = random.Random(seed)
    state = {}
    flags = []
    oinit = fastsim.FastSim.__init__

    def leafs(st, acc):
        if isinstance(st, _Assign):
            acc.append(st)
        elif isinstance(st, If):
            leafs(st.t, acc); leafs(st.f, acc)
        elif isinstance(st, Case):
            for k in sorted(st.cases, key=str):
                leafs(st.cases[k], acc)
        elif isinstance(st, (list, tuple)):
            for x in st:
                leafs(x, acc)

    def root(l):
        while isinstance(l, _Slice):
            l = l.value
        return l if isinstance(l, Signal) else None

    def mutate(f):
        # catalogue of this fragment
        per = {}
        dom = {}
        for cd, sts in [(None, f.comb)] + sorted(f.sync.items()):
            acc = []
            leafs(sts, acc)
            for a in acc:
                t = root(a.l)
                if t in owner:
                    cls, k, i = owner[t]
                    per.setdefault(cls, {}).setdefault(k, []).append((a, cd))
                    if cd is not None:
                        dom[t] = cd
        for cls in per:
            cat[cls] = max(cat.get(cls, 0), len(per[cls][min(per[cls])]))
        if seed is None:
            return
        if "cls" not in state:
            state["cls"] = want_cls
        cls = state["cls"]
        if cls not in per:
            return
        repl = {}
        for k in sorted(per[cls]):
            rng = random.Random("%s %s" % (seed, cls))
            l = per[cls][k]
            a, cd = l[int(rng.random() * len(l))]
            # trigger literals: registers of this instance, of the whole design
            own = [s for s in perinst[cls, k] if s in dom] or []
            allr = sorted((s for s in dom), key=lambda s: s.duid)
            conj, names = None, []
            nlit = rng.choice([1, 2, 2, 3])
            c0 = None
            for q in range(nlit):
                pool = own if own and rng.random() < .75 else allr
                s = pool[int(rng.random() * len(pool))]
                c0 = c0 or dom[s]
                n = len(s)
                if n == 1:
                    v = rng.getrandbits(1)
                    e = s == v
                    d = "%d" % v
                else:
                    kk = rng.random()
                    if kk < .35 and n <= 4:
                        v = rng.getrandbits(n); e = s == v; d = "==%d" % v
                    elif kk < .5:
                        v = 0; e = s == 0; d = "==0"
                    elif kk < .6:
                        e = s == (1 << n) - 1; d = "==max"
                    else:
                        b = rng.randrange(n); v = rng.getrandbits(1); e = s[b] == v; d = "[%d]==%d" % (b, v)
                names.append("%s%s" % (s.backtrace[-1][0] if s.backtrace else "?", d))
                conj = e if conj is None else conj & e
            after = rng.choice([0, 0, 0, 2, 20])
            trig = Signal(name_override="trig_t%d" % len(flags))
            if after:
                cnt = Signal(8)
                f.sync.setdefault(c0, [])
                f.sync[c0] += [If(conj & (cnt < after), cnt.eq(cnt + 1))]
                conj = conj & (cnt == after)
            f.comb.append(trig.eq(conj))
            flag = Signal(name_override="trig_f%d" % len(flags))
            flags.append(flag)
            kind = rng.choice(["hold", "xor", "xor1", "zero"])
            bit = rng.randrange(max(1, len(a.l)))
            if kind == "hold" and cd is None:
                kind = "xor1"
            if kind == "hold":
                new = If(~trig, _Assign(a.l, a.r))
            elif kind == "xor":
                new = _Assign(a.l, a.r ^ migen.Replicate(trig, max(1, len(a.l))))
            elif kind == "xor1":
                new = _Assign(a.l, a.r ^ (trig << bit))
            else:
                new = If(trig, _Assign(a.l, Constant(0))).Else(_Assign(a.l, a.r))
            # reached: the assignment is executed, with the trigger, and gives another value
            differs = {"hold": a.r != a.l, "zero": a.r != 0}.get(kind, Constant(1))
            if cd is None:
                ex = Signal(name_override="trig_x%d" % len(flags))
                f.sync[c0] += [If(ex, flag.eq(1))]
                repl[id(a)] = [new, If(trig & differs, ex.eq(1))]
            else:
                fl = Signal(name_override="trig_y%d" % len(flags))
                repl[id(a)] = [new, If(trig & differs, fl.eq(1))]
                flags[-1] = fl
            info["what"] = "%s: %s %s when %s%s" % (cls, root(a.l).backtrace[-1][0] if root(a.l).backtrace else "?", kind if kind != "xor1" else "bit %d" % bit,
                                                  " & ".join(names), " after %d" % after if after else "")
            info["cd"] = cd

        class T(NodeTransformer):
            def visit_Assign(self, node):
                n = repl.get(id(node))
                if n is None:
                    return node
                info["applied"] += 1
                return n

        def sub(st):
            if isinstance(st, _Assign):
                n = repl.get(id(st))
                if n is None:
                    return st
                info["applied"] += 1
                return n
            if isinstance(st, If):
                r = If(st.cond)
                r.t, r.f = sub(st.t), sub(st.f)
                return r
            if isinstance(st, Case):
                return Case(st.test, {k: sub(v) for k, v in st.cases.items()})
            if isinstance(st, (list, tuple)):
                return [sub(x) for x in st]
            return st
        f.comb = sub(f.comb)
        for k in f.sync:
            f.sync[k] = sub(f.sync[k])

    sims = []

    def init(self, module, inputs, outputs, *a, **kw):
        f = module if isinstance(module, _Fragment) else module.get_fragment()
        n0 = len(flags)
        mutate(f)
        mine = flags[n0:]
        oinit(self, f, inputs, outputs, *a, **kw)
        self._trig = mine
        sims.append(self)
    fastsim.FastSim.__init__ = init
    fired = [0]

    def look(self):
        for x in getattr(self, "_trig", ()):
            if x in self.sigidx and self.peek(x):
                fired[0] = 1
    oreset = fastsim.FastSim.reset
    oload = fastsim.FastSim.load
    oexp = fastsim.FastSim.expand

    def reset(self):
        look(self)
        return oreset(self)

    fastsim.FastSim.reset = reset
    import common
    import importlib
    want_cls = None
    if seed is not None:
        names = sorted(open(catfile(pid)).read().split("\n"))
        names = [x.split() for x in names if x.strip()]
        w = [max(1, int(n)) for _, n in names]
        want_cls = rng0.choices([n for n, _ in names], w)[0]
    for name in sorted(os.listdir(os.path.join(V, "checks"))):
        if name.endswith(".py"):
            m = importlib.import_module(name[:-3])
            if pid in getattr(m, "CHECKS", {}):
                rc = common.run(pid, m.CHECKS[pid])
    for s in sims:
        look(s)
    if seed is None:
        with open(catfile(pid), "w") as g:
            for k in sorted(cat):
                g.write("%s %d\n" % (k, cat[k]))
    res = "caught" if rc == 1 else "error" if rc else "MISSED" if fired[0] else "never"
    if not info["applied"]:
        res = "unapplied"
    print("RESULT %s %s %s" % (res, seed, info.get("what")))


def catfile(pid):
    return "/tmp/trig_%s.cat" % pid


def one(pid, seed):
    e = dict(ENV, VERIF_EVIDENCE="/tmp/trig_ev/%s_%s" % (pid, seed))
    try:
        r = subprocess.run([sys.executable, __file__, pid, "child", str(seed)], env=e, capture_output=True, text=True, timeout=600)
        m = re.findall(r"RESULT (.*)", r.stdout)
        out = m[-1] if m else "error %s (no result) %s" % (seed, (r.stdout + r.stderr)[-300:].replace("\n", " | "))
        if out.startswith("error"):
            m = re.findall(r"CHECK ERROR.*", r.stdout)
            out += "   " + (m[-1][:200] if m else (r.stdout + r.stderr)[-300:].replace("\n", " | "))
    except subprocess.TimeoutExpired:
        out = "error %s timeout" % seed
    subprocess.run(["rm", "-rf", "/tmp/trig_ev/%s_%s" % (pid, seed)])
    return out


if __name__ == "__main__":
    pid, what = sys.argv[1], sys.argv[2]
    if what == "child":
        child(pid, None if sys.argv[3] == "None" else int(sys.argv[3]))
    else:
        if not os.path.exists(catfile(pid)):
            one(pid, None)
        if what == "list":
            print(open(catfile(pid)).read())
        elif what == "one":
            print(one(pid, int(sys.argv[3])))
        else:
            first = int(sys.argv[3]) if len(sys.argv) > 3 else 0
            with ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
                from collections import Counter
                C = Counter()
                for o in ex.map(lambda k: one(pid, k), range(first, first + int(what))):
                    C[o.split()[0]] += 1
                    if not o.startswith(("caught", "unapplied")):
                        print(o, flush=True)
                print(pid, dict(C))
