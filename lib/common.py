"""Common frame of every check: run TLC on recorded behaviour, report, write evidence."""
import glob, json, os, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np

import tlc
from fastsim import FastSim, SimError


class Violation(Exception):
    pass


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = np.random.default_rng([self.seed, sum(map(ord, pid))])
        self.t0 = time.time()
        self.limit = 6000 if self.thorough else 720
        self.violations = []
        self.known = []
        self.states = self.transitions = self.ntraces = self.nrows = 0
        self.samples, self.parts = [], []
        self.exhaustive = False
        self.assumptions = []
        self.findings = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for l in open(p):
                if l.strip():
                    e = json.loads(l)
                    if e["property"] == pid and e["status"] == "known":
                        self.findings.append(e)

    # -- recording what a run did
    def part(self, name, **kw):
        kw["part"] = name
        self.parts.append(kw)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, label, clause, detail):
        f = dict(label=label, clause=clause, detail=detail)
        for e in self.findings:
            if e["label"] == label and clause in e["clauses"]:
                self.known.append((e, f))
                return
        self.violations.append(f)

    # -- time: an answer is due within the time a check is given
    def late(self, label):
        t = time.time() - self.t0
        if self.violations and t > 150:
            self.part(label, skipped="a violation was found already")
            return True
        if t > self.limit:
            self.part(label, skipped="no time left")
            self.assumptions.append("%s: not examined, no time left" % label)
            return True
        return False

    def bounded(self, label, f, **kw):
        """run TLC; out of time is no verdict, and recorded as such"""
        try:
            return f(timeout=max(30, min(800, self.t0 + self.limit + 60 - time.time())), **kw)
        except tlc.TLCTimeout as e:
            self.part(label, skipped=str(e))
            self.assumptions.append("%s: not decided, %s" % (label, e))
            return None

    # -- TLC on the specification itself
    def mc(self, label, module, **kw):
        r = tlc.mc(module, **kw)
        if r.violated:
            # the specification, not the code, is at fault: a machinery error
            raise tlc.TLCError("specification %s violates %s\n%s" % (module, r.violated, r.trace[:3000]))
        self.states += r.distinct
        self.transitions += r.states
        self.part(label, kind="model check of %s" % module, distinct_states=r.distinct, transitions=r.states,
                  wall=round(r.wall, 1))
        return r

    # -- conformance
    def traces(self, label, module, prefix, trs, cols=None, cap=3000000, **kw):
        if self.late(label):
            return None
        if any(not t[1] for t in trs):
            # a run in which the block never did anything observable
            self.violation(label, "nothing_observed", dict(kind="trace", module=module, prefix=prefix, hdr=[t[0] for t in trs if not t[1]][0]))
            trs = [t for t in trs if t[1]]
            if not trs:
                return None
        n = sum(len(t[1]) for t in trs)
        if n > cap:
            # far more rows than correct behaviour gives: its beginning decides
            self.assumptions.append("%s: %d rows, the first %d of each trace examined" % (label, n, cap // len(trs)))
            trs = [(h, rows[:cap // len(trs)]) for h, rows in trs]
            n = sum(len(t[1]) for t in trs)
            kw.pop("final", None)
        r = self.bounded(label, lambda **k: tlc.traces(module, prefix, trs, **k), **kw)
        if r is None:
            return None
        self.states += r.distinct
        self.transitions += r.states
        self.ntraces += len(trs)
        self.nrows += n
        self.part(label, kind="recorded traces against %s" % module, traces=len(trs), rows=n,
                  rejected=len(r.bad), wall=round(r.wall, 1))
        h, rows = trs[0]
        self.sample({"trace": label, "hdr": h, "columns": cols, "first_rows": [list(map(str, x)) if not isinstance(x, (int, str)) else x for x in rows[:4]]})
        for tid, k, clause, st in r.bad[:8]:
            h, rows = trs[tid - 1]
            self.violation(label, clause, dict(kind="trace", module=module, prefix=prefix, hdr=h, columns=cols,
                           step=k, row=rows[k - 1], spec_state=st[:4000], rows=rows[max(0, k - 40):k]))
        return r

    def lts(self, label, module, prefix, hdr, sim, ins, masks=None, cols=None, limit=200000, **kw):
        if self.late(label):
            return None
        kinds = kw.pop("row_ins", None)
        nxt, out = sim.lts(ins, masks, limit=limit)
        if sim.truncated:
            self.assumptions.append("%s: more than %d states, every sequence only to the depth they allow" % (label, limit))
        r = self.bounded(label, lambda **k: tlc.lts(module, prefix, hdr, ins if kinds is None else kinds, nxt, out, **k), **kw)
        if r is None:
            return None
        self.states += r.distinct
        self.transitions += r.states
        self.ntraces += 1
        self.part(label, kind="product of %s with the extracted machine" % module,
                  implementation_states=int(nxt.shape[0]), letters=int(nxt.shape[1]),
                  product_states=r.distinct, product_transitions=r.states, wall=round(r.wall, 1))
        self.sample({"product": label, "hdr": hdr, "letters": [list(map(int, x)) for x in list(ins)[:4]],
                     "implementation_states": int(nxt.shape[0])})
        if r.violated:
            clause = "conformance"
            import re
            m = re.findall(r'bad = "([^"]+)"', r.trace)
            if m:
                clause = m[-1]
            self.violation(label, clause, dict(kind="product", module=module, prefix=prefix, hdr=hdr, columns=cols,
                           counterexample=r.trace[-6000:]))
        return r

    def func(self, label, module, check, chunks, cols=None, **kw):
        if self.late(label):
            return None
        if any(not t[1] for t in chunks):
            self.violation(label, "nothing_observed", dict(kind="row", module=module, check=check))
            chunks = [t for t in chunks if t[1]]
            if not chunks:
                return None
        r = self.bounded(label, lambda **k: tlc.func(module, check, chunks, **k), **kw)
        if r is None:
            return None
        n = sum(len(c[1]) for c in chunks)
        self.states += r.distinct
        self.transitions += n
        self.ntraces += len(chunks)
        self.nrows += n
        self.part(label, kind="rows against %s!%s" % (module, check), rows=n, chunks=len(chunks),
                  rejected=len(r.bad), wall=round(r.wall, 1))
        self.sample({"rows": label, "hdr": chunks[0][0], "columns": cols, "first_rows": chunks[0][1][:3]})
        for tid, k, clause, st in r.bad[:8]:
            h, rows = chunks[tid - 1]
            self.violation(label, clause, dict(kind="row", module=module, check=check, hdr=h, columns=cols,
                                               row=rows[k - 1]))
        return r

    def par(self, fns, workers=4):
        """run independent TLC jobs side by side"""
        with ThreadPoolExecutor(workers) as ex:
            return [f.result() for f in [ex.submit(f) for f in fns]]

    def need(self, cond, label, clause, detail):
        if not cond:
            self.violation(label, clause, detail)

    # -- ending
    def done(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=int(self.states), transitions=int(self.transitions),
                   traces_validated_against_impl=int(self.ntraces), rows_examined=int(self.nrows),
                   samples=self.samples or ["(none)"], parts=self.parts)
        if self.exhaustive:
            cov["exhaustive"] = True
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_js)
        seen = set()
        for e, f in self.known:
            if e["id"] not in seen:
                seen.add(e["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        if self.violations:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, self.pid + ".json")
            with open(p, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, violations=self.violations),
                          f, indent=1, default=_js)
            for v in self.violations[:10]:
                print("  %s: clause %s" % (v["label"], v["clause"]))
                print("    " + json.dumps(v["detail"], default=_js)[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d rows=%d wall=%.1fs" % (
            self.pid, self.tier, self.states, self.transitions, self.ntraces, self.nrows, time.time() - self.t0))
        return 0


def _js(x):
    if hasattr(x, "item"):
        return x.item()
    if hasattr(x, "tolist"):
        return x.tolist()
    return str(x)


class Missing(Exception):
    """a software-visible register is not there"""
    @classmethod
    def unless(cls, ok, name, have):
        if not ok:
            raise cls("register %s; there are %s" % (name, sorted(have)))


def pick(d, name):
    """register by name, from a dictionary; migen may number the name"""
    m = [k for k in d if k == name or (k.startswith(name) and k[len(name):].isdigit())]
    Missing.unless(len(m) == 1, name, d)
    return d[m[0]]


def register(module, name):
    """register by name of a block that is not behind a bus"""
    return pick({x.name: x for x in module.get_csrs()}, name)


def from_code_under_test(exc):
    """did the exception come out of the code under test (elaboration failed)?"""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/litevideo"):
            return True
        tb = tb.tb_next
    return isinstance(exc, SimError) and ("driven" in str(exc))


def run(pid, fn):
    c = Check(pid)
    import litevideo
    if not litevideo.__file__.startswith(REPO):
        print("litevideo imported from", litevideo.__file__)
        return 2
    try:
        fn(c)
    except tlc.TLCError as e:
        print("CHECK ERROR (TLC):", e)
        return 2
    except Missing as e:
        c.violation("registers", "register_missing", dict(kind="exception", text=str(e)))
        return c.done()
    except Exception as e:
        traceback.print_exc()
        if from_code_under_test(e):
            c.violation("elaboration", "elaboration_fails", dict(kind="exception", text=traceback.format_exc()))
            return c.done()
        print("CHECK ERROR:", e)
        return 2
    return c.done()


def values(rng, shape, bits=8):
    """words of the given width, rich in corner values, with runs of equal values"""
    top = (1 << bits) - 1
    v = rng.integers(0, top + 1, shape)
    k = rng.random(shape)
    corner = rng.choice([0, top, 1, top - 1, top >> 1, (top >> 1) + 1, (1 << max(0, bits - 4)), top - (1 << max(0, bits - 4)),
                         0x5555555555555555 & top, 0xaaaaaaaaaaaaaaa & top], shape)
    v = np.where(k < .3, corner, v)
    if np.ndim(v) and len(v) > 1:
        rep = np.flatnonzero(rng.random(len(v)) < .06)
        for i in rep:
            if i:
                v[i] = v[i - 1]
    return v


def streamset(ep, name, d):
    """add a stream endpoint's fields to a name->signal dict"""
    for f in ("valid", "ready", "first", "last"):
        d[name + "_" + f] = getattr(ep, f)
    return d
