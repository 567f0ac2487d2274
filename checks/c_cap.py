"""I10, I12, I13: pads to words, delay control, recovered clocks."""
import re
import numpy as np
from migen import *
from migen.fhdl.specials import Instance
from common import Missing, FastSim, values
from csr import Regs


def ports(inst):
    d = {}
    for it in inst.items:
        if isinstance(it, (Instance.Input, Instance.Output)):
            d[it.name] = it.expr
    return d


def params(inst):
    return {it.name: getattr(it.value, "value", it.value) for it in inst.items if isinstance(it, Instance.Parameter)}


def instances(f, of):
    return [s for s in sorted(f.specials, key=lambda x: x.duid) if isinstance(s, Instance) and s.of == of]


class Capture:
    """one data channel of the receiver, its registers on a bus"""
    def __init__(self, family, inv, ntbits=8, regs=True):
        from litevideo.input.datacapture import S6DataCapture, S7DataCapture
        self.family, self.inv, self.nbits = family, inv, ntbits
        p, n = Signal(name="pad_p"), Signal(name="pad_n")
        if inv:
            p.inverted = True

        class Top(Module):
            pass
        top = Top()
        self.cds = {}
        for name in (("pix", "pix2x", "pix10x") if family == 6 else ("pix", "pix1p25x", "pix5x")):
            cd = ClockDomain("cd_" + name, reset_less=name in ("pix10x", "pix5x"))
            setattr(top.clock_domains, "cd_" + name, cd)
            self.cds[name] = cd
        d = (S6DataCapture if family == 6 else S7DataCapture)(p, n, *([] if ntbits == 8 else [ntbits]))
        top.submodules.regs = self.regs = Regs(d)
        self.d = d
        f = top.get_fragment()
        self.f = f
        ins = {"pad_p": p, "pad_n": n, **self.regs.ins()}
        outs = {"word": d.d}
        self.fast = "pix2x" if family == 6 else "pix1p25x"
        for name, cd in self.cds.items():
            ins["clk_" + name] = cd.clk
            if cd.rst is not None:
                ins["rst_" + name] = cd.rst
        # the primitives, told apart by what they are, not by how they are written
        if family == 6:
            des = {params(i)["SERDES_MODE"]: i for i in instances(f, "ISERDES2")}
            dly = {params(i)["SERDES_MODE"]: i for i in instances(f, "IODELAY2")}
            pair = {"m": (des["MASTER"], dly["MASTER"]), "s": (des["SLAVE"], dly["SLAVE"])}
            ib = instances(f, "IBUFDS")[0]
            di, do = ("IDATAIN", "CLK", "IOCLK0", "INC", "CE", "CAL", "RST", "T"), ("DATAOUT", "BUSY")
            si, so = ("D", "BITSLIP", "CE0", "CLK0", "CLKDIV", "IOCE", "SHIFTIN"), ("SHIFTOUT", "VALID", "INCDEC", "Q1", "Q2", "Q3", "Q4")
            ins["strobe"] = d.serdesstrobe
        else:
            # which is which is found out below, from how they are connected
            ib = instances(f, "IBUFDS_DIFF_OUT")[0]
            pair = dict(zip("xy", zip(instances(f, "ISERDESE2"), instances(f, "IDELAYE2"))))
            di, do = ("C", "LD", "CE", "LDPIPEEN", "INC", "IDATAIN"), ("DATAOUT", "CNTVALUEOUT")
            si, so = ("DDLY", "CE1", "RST", "CLK", "CLKB", "CLKDIV", "BITSLIP"), tuple("Q%d" % k for k in range(1, 9))
        self.pair = pair
        self.qbits = {}
        for k, (se, dl) in pair.items():
            P, Q = ports(se), ports(dl)
            for x in di:
                outs["%s_%s%s" % (k, "d" if x in ("RST",) else "", x)] = Q[x]
            for x in do:
                if x in Q:
                    ins["%s_%s" % (k, x)] = Q[x]
            for x in si:
                outs["%s_%s" % (k, x)] = P[x]
            for x in so:
                if x not in P:
                    continue
                e = P[x]
                if isinstance(e, Signal):
                    ins["%s_%s" % (k, x)] = e
                else:
                    self.qbits["%s_%s" % (k, x)] = (e.value, e.start)
        P = ports(ib)
        outs["IB_I"], outs["IB_IB"] = P["I"], P["IB"]
        for x in ("O", "OB"):
            if x in P:
                ins["IB_" + x] = P[x]
        # signals the deserialiser outputs are bits of
        self.words = {}
        for nme, (sig, bit) in self.qbits.items():
            if sig not in self.words:
                self.words[sig] = "q%d" % len(self.words)
                ins[self.words[sig]] = sig
        for r in ("_phase", "_dly_busy", "_cntvalueout_m", "_cntvalueout_s"):
            if hasattr(d, r):
                outs[r[1:]] = getattr(d, r).status
        self.s = FastSim(f, ins, outs, domains=["sys", "pix", self.fast])
        self.addr = self.regs.finish()
        if family == 7:
            self.identify(si + so, di + do)

    def identify(self, sports, dports):
        """the master's delay line follows the true output of the input buffer; a deserialiser goes with the
        delay line it follows"""
        s = self.s

        def follows(src, dst):
            r = []
            for v in (0, 1):
                s.set(**{x: 0 for x in s.inidx})
                s.set(**{src: v})
                s.settle()
                r.append(s.outd()[dst])
            return r[0] != r[1]
        dl = [q for q in "xy" if follows("IB_O", q + "_IDATAIN")]
        dm = dl[0] if dl else "x"
        ds = "y" if dm == "x" else "x"
        se = [q for q in "xy" if follows(dm + "_DATAOUT", q + "_DDLY")]
        sm = se[0] if se else "x"
        ss = "y" if sm == "x" else "x"
        new = {}
        for was, now, P in ((dm, "m", dports), (ds, "s", dports), (sm, "m", sports), (ss, "s", sports)):
            new.update({was + "_" + x: now + "_" + x for x in P})
        s.inidx = {new.get(k, k): v for k, v in s.inidx.items()}
        s.outidx = {new.get(k, k): v for k, v in s.outidx.items()}
        self.qbits = {new.get(k, k): v for k, v in self.qbits.items()}
        p = self.pair
        self.pair = {"m": (p[sm][0], p[dm][1]), "s": (p[ss][0], p[ds][1])}

    def reg(self, name):
        m = [a for n, a in self.addr.items() if re.search(r"(^|_)%s\d*$" % name, n)]
        Missing.unless(len(m) == 1, name, self.addr)
        return m[0]

    def put(self, m, port, v):
        """column(s) for a deserialiser output port"""
        if port in self.qbits:
            sig, bit = self.qbits[port]
            m[:, self.s.inidx[self.words[sig]]] |= np.asarray(v, dtype=np.int64) << bit
        else:
            m[:, self.s.inidx[port]] = v

    def groups(self, m, g, which="m"):
        """received groups, oldest bit least significant, on the ports the vendor defines"""
        if self.family == 6:
            for k, port in enumerate(("s_Q4", "m_Q1", "m_Q2", "m_Q3", "m_Q4")):
                self.put(m, port, (g >> k) & 1)
        else:
            for k in range(8):
                self.put(m, "%s_Q%d" % (which, 8 - k), (g >> k) & 1)


def clocks(c, fam, n, kind=0):
    """tick flags of the group clock and the word clock at the instants where either ticks"""
    if fam == 6:
        # two groups per word, edges aligned
        a = np.ones(n, dtype=np.int64)
        b = ((np.arange(n) + kind) % 2 == 0) * 1
        return a, b
    # the first edges after reset: 4 by 5 combinations
    t = np.arange(n * 4)
    a = t % 4 == kind % 20 // 5
    b = t % 5 == kind % 5
    if kind >= 20:
        # jitter: word edges move by up to one time step
        j = c.rng.integers(-1, 2, n * 4)
        idx = np.flatnonzero(b)
        b = np.zeros(n * 4, dtype=bool)
        b[np.clip(idx + j[idx], 0, n * 4 - 1)] = True
    keep = a | b
    return (a[keep] * 1)[:n], (b[keep] * 1)[:n]


# ---------------------------------------------------------------- I10
def I10(c):
    trs, wires = [], {6: [], 7: []}
    modes = {6: [], 7: []}
    for fam in (6, 7):
        for inv in (0, 1):
            C = Capture(fam, inv)
            s = C.s
            iw = 5 if fam == 6 else 8
            kinds = ([0, 1, 0] if fam == 6 else list(range(20)) + [21, 27, 33]) * (3 if c.thorough else 1)
            for kk, kind in enumerate(kinds):
                n = 1200 if not c.thorough else 3000
                a, b = clocks(c, fam, n, kind)
                g = c.rng.integers(0, 1 << iw, n) if kk % 3 == 0 else values(c.rng, n, iw)
                m = np.zeros((n, s.nin), dtype=np.int64)
                ain = np.cumsum(a) - a
                g = g[ain]           # groups change with their own clock
                C.groups(m, g)
                rst = np.zeros(n, dtype=np.int64)
                if fam == 7:
                    # the slave deserialiser sees something else
                    C.groups(m, c.rng.integers(0, 256, n), "s")
                    for r in range(2 if kk % 2 else 0):
                        x = int(c.rng.integers(100, n - 300))
                        y = x + int(c.rng.integers(8, 30))
                        # the two domains leave reset up to a few ticks apart
                        m[x:y, s.inidx["rst_pix"]] = 1
                        m[x:y + int(c.rng.integers(-3, 4)), s.inidx["rst_pix1p25x"]] = 1
                        rst[x:y + 4] = 1
                st = (c.rng.random(n) < .5) * 1
                if kk % 2:
                    # delay commands meanwhile: what was received still arrives
                    q = c.rng.random(n) < .1
                    m[q, s.inidx["b_we"]] = 1
                    m[q, s.inidx["b_adr"]] = c.rng.choice([C.reg("dly_ctl"), C.reg("phase_reset")], int(q.sum()))
                    m[q, s.inidx["b_dat"]] = c.rng.integers(0, 64, int(q.sum()))
                s.reset()
                o = s.run(m, masks=a * s._mask_of([C.fast]) + b * s._mask_of(["pix"]) + st * s._mask_of(["sys"]))
                trs.append(({"iw": iw, "inv": inv, "settle": 14},
                            np.stack([a, b, g, o[:, s.outidx["word"]], rst], 1).tolist()))
            # connections of the primitives
            for k in range(60):
                v = {x: int(c.rng.integers(2)) for x in s.inidx}
                for x in list(v):
                    if x in ("b_we", "b_adr", "b_dat"):
                        v[x] = 0
                s.set(**v)
                s.settle()
                r = {x: int(y) for x, y in v.items() if not x.startswith("b_")}
                r.update({x: int(y) for x, y in s.outd().items()})
                r.update({x[4:]: int(y) for x, y in v.items() if x.startswith("clk_")})
                r["rst"] = v.get("rst_pix1p25x", 0)
                if fam == 6:
                    r["m_RST"] = r["s_RST"] = 0
                    for q in "ms":
                        e = ports(C.pair[q][0])["RST"]
                        r[q + "_RST"] = e.value if isinstance(e, Constant) else int(e)
                wires[fam].append(r)
            for q in "ms":
                P, D = params(C.pair[q][0]), params(C.pair[q][1])
                modes[fam].append(dict(width=P["DATA_WIDTH"], rate=P["DATA_RATE"], delay=D["IDELAY_TYPE"]))
    c.traces("received bits to words", "DataCapture", "Des", trs, cols=["group tick", "word tick", "group", "word", "reset"])
    for fam in (6, 7):
        c.func("connections of the deserialisers, %d" % fam, "DataCapture", "Wires%d" % fam, [({}, wires[fam])])
        c.func("deserialiser modes, %d" % fam, "DataCapture", "Mode%d" % fam, [({}, modes[fam])])
    c.func("strobe of a whole receiver", "DataCapture", "Clocks", [strobes(c)])


# ---------------------------------------------------------------- I12
def I12(c):
    ctl, bsy, lat, cnt = [], [], [], []
    for fam in (6, 7):
        for inv in (0, 1):
            for nb in (8, 3, 5):
                C = Capture(fam, inv, nb)
                for k in range(16 if c.thorough else 5):
                    control(c, C, k, ctl, bsy, lat, cnt)
    c.par([lambda: c.traces("delay commands", "DataCapture", "Ctl", ctl, cols=["sys", "delay clock", "command", "pulse ports", "INC m", "INC s"], workers=3),
           lambda: c.traces("delay busy", "DataCapture", "Bsy", bsy, cols=["sys", "delay clock", "command", "pulse", "BUSY", "status"], workers=2),
           lambda: c.traces("phase errors", "DataCapture", "Lat", lat, cols=["sys", "delay clock", "reset", "a", "b", "c", "d", "status"], workers=3),
           lambda: c.traces("delay values", "DataCapture", "Cnt", cnt, cols=["sys", "delay clock", "value", "register"], workers=2)])
    c.assumptions += ["software leaves a few ticks of both clocks between delay commands, and waits for busy to clear on Spartan-6",
                      "a delay line raises BUSY in the clock after CAL or CE"]


def control(c, C, k, ctl, bsy, lat, cnt):
    s, fam, rng = C.s, C.family, c.rng
    n = 3000
    pf, ps = [(1, 1), (1, .4), (.4, 1), (.8, .7)][int(rng.integers(4))]
    st = rng.random(n) < ps
    ft = rng.random(n) < pf
    I, O = s.inidx, s.outidx
    adr = {x: C.reg(x) for x in ("dly_ctl", "phase_reset")}
    drift = rng.choice([.5, .9, .1, 1, 0])
    rate = rng.choice([1, .3, .05])
    s.reset()
    busy = {"m": 0, "s": 0}
    ahead = {"m": 0, "s": 0}
    wait = [30, 30]
    cmdrow = []
    cv = {"m": int(rng.integers(32)), "s": int(rng.integers(32))}
    hold = {"m": 0, "s": 0}
    mw = sw = 0
    sweep = 0 if k % 2 else None
    rst0, up, est = 0, 0, 1 << (C.nbits - 1)
    R = {"ctl": [], "bm": [], "bs": [], "lat": [], "cm": [], "cs": []}
    v = {x: 0 for x in I}
    nports = ["m_LD", "s_LD", "m_CE", "s_CE"] if fam == 7 else ["m_CAL", "m_dRST", "s_CAL", "s_dRST", "m_CE", "s_CE"]
    for t in range(n):
        if sweep is not None:
            # through the whole range and back before an end is reached
            top = (1 << C.nbits) - 1
            if t == 0 or (sweep < 0 and rst0):
                sweep, up, est = 3, int(rng.integers(2)), 1 << (C.nbits - 1)
            rate = 1
            if sweep > 0 and (est >= top - int(rng.integers(1, 5)) if up else est <= int(rng.integers(1, 5))):
                up, sweep = 1 - up, sweep - 1
            if sweep == 0 and est in (0, top) and rng.random() < .05:
                sweep = -1
            drift = (1 if up else 0) if sweep < 0 else .97 if up else .03
        elif t % 500 == 0:
            drift = rng.choice([.5, .8, .2, 1, 0])
            rate = rng.choice([1, .3, .05])
        v["b_we"] = 0
        rst0 = 0
        cmd = rst = 0
        if st[t]:
            if wait[0] <= 0 and wait[1] <= 0 and rng.random() < .2:
                if rng.random() < .75:
                    cmd = int(rng.integers(1, 64 if fam == 6 else 32))
                    if fam == 7:
                        if cmd & 6 == 6:
                            cmd &= ~2
                        if cmd & 24 == 24:
                            cmd &= ~16
                    elif cmd & 48 == 48:
                        cmd &= ~int(rng.choice([16, 32]))
                    v["b_we"], v["b_adr"], v["b_dat"] = 1, adr["dly_ctl"], cmd
                    wait = [6, 6]
                    if fam == 6:
                        wait = [8, 8]
                elif drift in (.5, 1, 0) and rng.random() < .5:
                    rst = rst0 = 1
                    v["b_we"], v["b_adr"], v["b_dat"] = 1, adr["phase_reset"], int(rng.integers(2))
                    wait = [6, 6]
        # what the deserialisers show; only changes with the delay clock
        if t == 0 or ft[t - 1]:
            if fam == 7:
                mw0 = mw
                if rng.random() < rate:
                    mw = int(rng.integers(256))
                late = rng.random() < drift
                est += (mw != mw0) * (1 if late else -1)
                # master and slave (which sees the complement) agree or not
                sw = mw ^ 255 if not late else int(mw ^ 255 ^ rng.integers(1, 256))
                put_q(C, v, "m", mw)
                put_q(C, v, "s", sw)
                for q in "ms":
                    if hold[q] <= 0:
                        cv[q] = int(rng.integers(32))
                        hold[q] = int(rng.choice([3, 20, 200]))
                    hold[q] -= 1
                    v[q + "_CNTVALUEOUT"] = cv[q]
            else:
                v["m_VALID"] = int(rng.random() < rate)
                v["m_INCDEC"] = int(rng.random() >= drift)
                if v["m_VALID"] and not busy["m"] and not busy["s"]:
                    est += 1 - 2 * v["m_INCDEC"]
                for q in "ms":
                    v[q + "_BUSY"] = int(busy[q] > 0)
        s.set(**v)
        s.settle()
        o = s.outd()
        b = [int(st[t]), int(ft[t])]
        R["ctl"].append(b + [cmd] + [o[x] for x in nports] + [o["m_INC"], o["s_INC"]])
        if fam == 6:
            R["bm"].append(b + [cmd, o["m_CAL"] | o["m_CE"], v["m_BUSY"], o["dly_busy"] & 1])
            R["bs"].append(b + [cmd, o["s_CAL"] | o["s_CE"], v["s_BUSY"], o["dly_busy"] >> 1])
            R["lat"].append(b + [rst, v["m_VALID"], v["m_INCDEC"], v["m_BUSY"], v["s_BUSY"], o["phase"]])
        else:
            R["lat"].append(b + [rst, mw, sw, 0, 0, o["phase"]])
            R["cm"].append(b + [cv["m"], o["cntvalueout_m"]])
            R["cs"].append(b + [cv["s"], o["cntvalueout_s"]])
        if ft[t]:
            if fam == 6:
                for q in "ms":
                    if o[q + "_CAL"] or o[q + "_CE"]:
                        busy[q] = int(rng.choice([1, 3, 12, 30]))
                    elif busy[q]:
                        busy[q] -= 1
        free = fam == 7 or o["dly_busy"] == 0
        wait = [wait[0] - int(st[t]), wait[1] - int(ft[t])] if free else [max(4, wait[0]), max(4, wait[1])]
        s.tick((["sys"] if st[t] else []) + ([C.fast] if ft[t] else []) + (["pix"] if t % 2 else []))
    ctl.append(({"family": fam}, R["ctl"]))
    lat.append(({"family": fam, "inv": C.inv, "nbits": C.nbits}, R["lat"]))
    if fam == 6:
        bsy.append(({"bits": [0, 4, 5]}, R["bm"]))
        bsy.append(({"bits": [2, 4, 5]}, R["bs"]))
    else:
        cnt.append(({}, R["cm"]))
        cnt.append(({}, R["cs"]))


def put_q(C, v, q, w):
    """the deserialiser outputs, newest bit on Q1"""
    words = {}
    for k in range(8):
        port = "%s_Q%d" % (q, 8 - k)
        if port in C.qbits:
            sig, bit = C.qbits[port]
            words[C.words[sig]] = words.get(C.words[sig], 0) | ((w >> k) & 1) << bit
        elif port in C.s.inidx:
            v[port] = (w >> k) & 1
    v.update(words)


# ---------------------------------------------------------------- I13
def wires(f):
    """clock buffers pass their clock on"""
    for of, i, o in (("BUFG", "I", "O"), ("BUFR", "I", "O"), ("BUFPLL", "PLLIN", "IOCLK")):
        for x in instances(f, of):
            P = ports(x)
            f.comb += [P[o].eq(P[i])]
            x.items = [it for it in x.items if not (isinstance(it, Instance.Output) and it.name == o)]
            if of != "BUFPLL":
                f.specials.discard(x)


class ClockGen:
    """a clock generator with its registers; gens: its PLLs in order"""
    def __init__(self, module, domains, gens, extra=()):
        self.regs = Regs(module)
        f = self.regs.get_fragment()
        wires(f)
        cds = {cd.name: cd for cd in f.clock_domains}
        self.domains = domains
        ins, outs = self.regs.ins(), {}
        self.gens = []
        for g, of in enumerate(gens):
            x = instances(f, of)[0]
            P, A = ports(x), params(x)
            n = "g%d_" % g
            k = sorted(int(q[6:]) for q in P if re.match(r"CLKOUT\d$", q))
            for q in ["CLKOUT%d" % i for i in k] + ["CLKFBOUT", "LOCKED", "DRDY", "DO"]:
                ins[n + q] = P[q]
            for q in ("CLKIN1", "CLKFBIN", "RST", "DADDR", "DI", "DEN", "DWE", "DCLK"):
                outs[n + q] = P[q]
            if "CLKINSEL" in P:
                outs[n + "CLKIN1"] = Mux(P["CLKINSEL"], P["CLKIN1"], P.get("CLKIN2", 0))
            mult = A.get("CLKFBOUT_MULT_F", A.get("CLKFBOUT_MULT")) / A.get("DIVCLK_DIVIDE", 1)
            div = [A.get("CLKOUT%d_DIVIDE_F" % i, A.get("CLKOUT%d_DIVIDE" % i)) for i in k]
            self.gens.append((["CLKOUT%d" % i for i in k], [mult / d for d in div]))
        for x in instances(f, "DCM_CLKGEN"):
            self.md_max = params(x)["CLKFX_MD_MAX"]
        if of_bufpll(f):
            P = ports(of_bufpll(f))
            ins["lock"] = P["LOCK"]
            ins["strobe"] = P["SERDESSTROBE"]
            self.divide = params(of_bufpll(f)).get("DIVIDE")
            outs["bufpll_locked"], outs["bufpll_gclk"] = P["LOCKED"], P["GCLK"]
        outs["clk_sys"] = ClockSignal("sys")
        for nm, sig, kind in extra:
            (ins if kind == "in" else outs)[nm] = sig(f) if callable(sig) else sig
        for d in domains:
            outs["clk_" + d] = cds[d].clk
            if cds[d].rst is not None:
                outs["rst_" + d] = cds[d].rst
        self.s = FastSim(f, ins, outs, domains=["sys"])
        self.addr = self.regs.finish()

    def reg(self, name):
        m = [a for n, a in self.addr.items() if re.search(r"(^|_)%s\d*$" % name, n)]
        Missing.unless(len(m) == 1, name, self.addr)
        return m[0]


def clock_buffer(f, pads):
    """ports of the input buffer on the clock pads: the one that is not on data pads"""
    data = set()
    for i in range(3):
        for y in "pn":
            data.add(getattr(pads, "data%d_%s" % (i, y)).duid)
    x = [ports(i) for i in instances(f, "IBUFDS") + instances(f, "IBUFDS_DIFF_OUT")]
    m = [q for q in x if not ({getattr(q.get(k), "duid", None) for k in ("I", "IB")} & data)] or x
    return m[0]


def strobes(c):
    """Spartan-6: in a whole receiver the deserialisers get the strobe of the clock buffer"""
    from litevideo.input import HDMIIn
    from migen.genlib.record import Record
    pads = Record([(x + y, 1) for x in ("data0", "data1", "data2", "clk") for y in ("_p", "_n")])
    top = HDMIIn(pads, device="xc6")

    def ioce(f, k):
        return ports(instances(f, "ISERDES2")[k])["IOCE"]
    K = ClockGen(top, ["pix", "pix2x", "pix10x"], ["PLL_ADV"], [("ioce%d" % k, lambda f, k=k: ioce(f, k), "out") for k in range(6)])
    rows = clock_values(c, K, [(0, ["pix", "pix2x", "pix10x"])], [("ioce%d" % k, "strobe") for k in range(6)])
    return dict(ratios([1, 2, 10], K, 0), abs=True), rows


def of_bufpll(f):
    x = instances(f, "BUFPLL")
    return x[0] if x else None


def clock_values(c, K, groups, same):
    """groups: [(generator, domains)]; same: pairs of names"""
    rows = []
    s = K.s
    V = {}
    for k in range(40):
        v = {x: int(c.rng.integers(2)) for x in s.inidx if not x.startswith("b_") and not x.endswith("_DO")}
        if "ibuf_OB" in v:
            v["ibuf_OB"] = 1 - v["ibuf_O"]
        s.set(**v)
        s.settle()
        for x, y in list(v.items()) + list(s.outd().items()):
            V.setdefault(x, []).append(int(y))
    # the strobe comes once per group of five bits
    rate = [[[K.divide], [5]]] if hasattr(K, "divide") else []
    return [dict(dom=[V["clk_" + d] for d in doms], out=[V["g%d_%s" % (g, q)] for q in K.gens[g][0]],
                 same=[[V[a], V[b]] for a, b in (same if g == 0 else [])] + rate) for g, doms in groups]


def program(c, K, n, names, widths, g, init):
    """random register traffic; returns what the registers hold and strobe, inputs and outputs"""
    s, i = K.s, K.s.inidx
    m = np.zeros((n, s.nin), dtype=np.int64)
    for q in range(len(K.gens)):
        m[:, i["g%d_DRDY" % q]] = c.rng.random(n) < .1
        m[:, i["g%d_DO" % q]] = c.rng.integers(0, 1 << 16, n)
        m[:, i["g%d_LOCKED" % q]] = np.cumsum(c.rng.random(n) < .02) & 1
    if "lock" in i:
        m[:, i["lock"]] = np.cumsum(c.rng.random(n) < .02) & 1
    cur = {x: np.zeros(n, dtype=np.int64) for x in names}
    for x, v in init.items():
        cur[x][:] = v
    t = 2
    order = list(names)
    while t < n:
        x = order[int(c.rng.integers(len(order)))]
        v = int(c.rng.integers(0, 1 << widths[x])) if x in widths else int(c.rng.integers(2))
        m[t, i["b_we"]], m[t, i["b_adr"]], m[t, i["b_dat"]] = 1, names[x], v
        if x in widths:
            cur[x][t + 1:] = v
        else:
            cur[x][t] = 1
        t += 1 if c.rng.random() < .5 else int(c.rng.integers(1, 20))
    s.reset()
    o = s.run(m)
    return m, o, cur


def drp_rows(K, m, o, cur, g, suffix=""):
    i, oi = K.s.inidx, K.s.outidx
    n = "g%d_" % g
    return np.stack([cur["adr"], cur["dat_w"], cur["reset"], cur["read" + suffix], cur["write" + suffix]]
                    + [m[:, i[n + x]] for x in ("DRDY", "DO", "LOCKED")] + [o[:, oi[n + x]] for x in ("DEN", "DWE", "DADDR", "DI", "RST")]
                    + [o[:, oi["drdy" + suffix]], o[:, oi["dat_r" + suffix]]], 1).tolist()


DRPCOLS = ["adr", "dat_w", "reset", "read", "write", "DRDY", "DO", "LOCKED", "DEN", "DWE", "DADDR", "DI", "RST", "drdy", "dat_r"]


def ratios(want, K, g):
    return dict(rate=[int(round(x * 60)) for x in K.gens[g][1]], want=[int(x * 60) for x in want])


def I13(c):
    from litevideo.input import HDMIIn
    from migen.genlib.record import Record
    drp, lck, clk = [], [], []
    for fam, inv, split, fin in ((6, 0, 0, 0), (7, 0, 0, 148.5e6), (7, 1, 0, 74.25e6), (7, 0, 1, 148.5e6), (7, 1, 1, 148.5e6)):
        # the generator inside a whole receiver
        pads = Record([(x + y, 1) for x in ("data0", "data1", "data2", "clk") for y in ("_p", "_n")])
        if inv:
            pads.clk_p.inverted = True
        top = HDMIIn(pads, device="xc6") if fam == 6 else HDMIIn(pads, device="xc7", clkin_freq=fin, split_mmcm=bool(split), hdmi=bool(inv))
        d = top.clocking
        if fam == 6:
            doms, want = ["pix", "pix_o", "pix2x", "pix10x"], [1, 1, 2, 10]
            gens, p = ["PLL_ADV"], "pll"
        else:
            doms, want = ["pix", "pix1p25x", "pix5x"] + ([] if split else ["pix_o", "pix5x_o"]), [1, 1.25, 5] + ([] if split else [1, 5])
            gens, p = ["MMCME2_ADV"] + (["PLLE2_ADV"] if split else []), "mmcm"
        extra = [("status", d._locked.status, "out"), ("user_locked", d.locked, "out"),
                 ("drdy", getattr(d, "_%s_drdy" % p).status, "out"), ("dat_r", getattr(d, "_%s_dat_r" % p).status, "out"),
                 ("ibuf_p", lambda f: clock_buffer(f, pads)["I"], "out"),
                 ("ibuf_n", lambda f: clock_buffer(f, pads)["IB"], "out"),
                 ("clk_p", pads.clk_p, "in"), ("clk_n", pads.clk_n, "in"),
                 ]
        for x in ("O", "OB"):
            extra.append(("ibuf_" + x, lambda f, x=x: clock_buffer(f, pads).get(x, Signal()), "in"))
        if split:
            Missing.unless(hasattr(d, "_mmcm_drdy_o"), "mmcm_drdy_o", [x.name for x in d.get_csrs()])
            extra += [("drdy_o", d._mmcm_drdy_o.status, "out"), ("dat_r_o", d._mmcm_dat_o_r.status, "out")]
        K = ClockGen(d, doms + (["pix_o", "pix5x_o"] if split else []), gens, extra)
        same = [("g%d_DCLK" % q, "clk_sys") for q in range(len(gens))] + [("ibuf_p", "clk_p"), ("ibuf_n", "clk_n"), ("g0_CLKIN1", "ibuf_OB" if inv else "ibuf_O"), ("g0_CLKFBIN", "g0_CLKFBOUT")]
        if fam == 6:
            same += [("bufpll_locked", "g0_LOCKED"), ("bufpll_gclk", "clk_pix2x")]
        if split:
            same += [("g1_CLKIN1", "g0_CLKOUT0"), ("g1_CLKFBIN", "g1_CLKFBOUT")]
        rows = clock_values(c, K, [(0, doms)] + ([(1, ["pix_o", "pix5x_o"])] if split else []), same)
        clk.append((dict(ratios(want, K, 0), abs=True), rows[:1]))
        if split:
            clk.append((dict(ratios([1, 5], K, 1), abs=True), rows[1:]))
        names = {x: K.reg("%s_%s" % (p, x)) for x in ("adr", "dat_w", "reset", "read", "write")}
        if split:
            names.update({x: K.reg("%s_%s" % (p, x)) for x in ("read_o", "write_o")})
        widths = {"adr": 5 if fam == 6 else 7, "dat_w": 16, "reset": 1}
        for k in range(30 if c.thorough else 10):
            m, o, cur = program(c, K, 3000, names, widths, 0, {"reset": 1})
            i, oi = K.s.inidx, K.s.outidx
            drp.append((dict(chained=False), drp_rows(K, m, o, cur, 0)))
            if split:
                drp.append((dict(chained=False), drp_rows(K, m, o, cur, 1, "_o")))
            L = m[:, i["lock" if fam == 6 else "g0_LOCKED"]]
            rs = ["pix", "pix2x"] if fam == 6 else ["pix", "pix1p25x"] + ([] if split else ["pix_o"])
            for stn in ("status", "user_locked"):
                lck.append((dict(slack=4, status=True), [[int(a), int(b), [int(y) for y in z]] for a, b, z in
                            zip(L, o[:, oi[stn]], o[:, [oi["rst_" + x] for x in rs]])]))
            if split:
                lck.append((dict(slack=4, status=False), [[int(a), 0, [int(z)]] for a, z in zip(m[:, i["g1_LOCKED"]], o[:, oi["rst_pix_o"]])]))
    c.par([lambda: c.traces("clock generator registers", "VideoOut", "Drp", drp, cols=DRPCOLS, workers=4),
           lambda: c.traces("lock and resets", "DataCapture", "Lck", lck, cols=["LOCKED", "status", "resets"], workers=4),
           lambda: c.func("clock connections and rates", "DataCapture", "Clocks", clk, workers=1)])


CHECKS = {"I10": I10, "I12": I12, "I13": I13}
