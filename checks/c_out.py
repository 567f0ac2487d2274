"""O01-O06: timing generator, frames from memory, underflow counter, connector, patterns, clock programming."""
import re
import numpy as np
from migen import *
from litex.soc.interconnect import stream
from vendor import Vendor
from common import Missing, FastSim, values
from csr import Regs, inst_port

PNAMES = ["hres", "hsync_start", "hsync_end", "hscan", "vres", "vsync_start", "vsync_end", "vscan"]


def params(rng, wmax, hmax, tight=False, wild=False):
    """a raster: hres, hss, hse, hscan, vres, vss, vse, vscan; wild: pulses inside the picture, no blanking"""
    out = []
    for m in (wmax, hmax):
        if wild and rng.random() < .5:
            scan = int(rng.integers(1, m + 4))
            out += [int(rng.integers(1, scan + 2)), *sorted(int(x) for x in rng.integers(1, scan + 1, 2)), scan]
            continue
        res = int(rng.integers(1, m + 1))
        a = res + int(rng.integers(0, 4))
        b = a + int(rng.integers(0 if tight else 1, 4))
        out += [res, a, b, max(b, res) + int(rng.integers(0, 4))]
    return out


# ---------------------------------------------------------------- O01
def timing():
    from litevideo.output.core import TimingGenerator
    d = TimingGenerator()
    ins = {"v": d.sink.valid, "r": d.source.ready}
    ins.update({n: getattr(d.sink, n) for n in PNAMES})
    outs = {"ov": d.source.valid, "de": d.source.de, "hs": d.source.hsync, "vs": d.source.vsync, "taken": d.sink.ready}
    return FastSim(d, ins, outs)


class TimEnv(Module):
    """a queue of parameter sets in front: a set stays until it is taken or withdrawn"""
    def __init__(self, sets):
        from litevideo.output.core import TimingGenerator
        self.submodules.d = d = TimingGenerator()
        self.want, self.nxt, self.drop = Signal(), Signal(max=len(sets)), Signal()
        self.set, self.lock = Signal(max=len(sets)), Signal()
        cur = Signal(max=len(sets))
        self.comb += [self.set.eq(Mux(self.lock, cur, self.nxt)), d.sink.valid.eq(~self.drop & (self.lock | self.want))]
        self.comb += Case(self.set, {i: [getattr(d.sink, n).eq(v) for n, v in zip(PNAMES, s)] for i, s in enumerate(sets)})
        self.sync += [cur.eq(self.set), self.lock.eq(d.sink.valid & ~d.sink.ready)]


TIMCOLS = ["valid", "ready", "set", "ovalid", "de", "hsync", "vsync", "taken"]


def O01(c):
    c.mc("raster specification, every small parameter set", "Raster_MC", invs=["Apart", "Frame"],
         constants=dict(MaxH=7 if c.thorough else 5, MaxV=5 if c.thorough else 4), workers=4)
    # every history of valid, ready and next parameter set, small rasters
    fixed = [([1, 1, 1, 1, 1, 1, 1, 1], [2, 2, 3, 3, 1, 2, 3, 3]), ([3, 3, 4, 5, 2, 2, 3, 4], [2, 4, 5, 5, 3, 3, 4, 4]),
             ([4, 5, 6, 6, 3, 3, 5, 5], [1, 2, 3, 4, 2, 3, 4, 4])]
    pairs = fixed + [(params(c.rng, 5, 4, wild=True), params(c.rng, 4, 5, wild=True)) for _ in range(60 if c.thorough else 10)]
    for k, sets in enumerate(pairs):
        e = TimEnv(sets)
        o = e.d.source
        s = FastSim(e, {"want": e.want, "r": o.ready, "nxt": e.nxt, "drop": e.drop},
                    {"v": e.d.sink.valid, "set": e.set, "ov": o.valid, "de": o.de, "hs": o.hsync, "vs": o.vsync, "taken": e.d.sink.ready})
        ins = np.array([[v, r, i, 0] for v in (0, 1) for r in (0, 1) for i in (0, 1)] + [[0, 1, 0, 1], [0, 0, 1, 1]])
        c.lts("every history %d" % k, "VideoOut", "TimL", {"sets": [list(x) for x in sets]}, s, ins,
              cols=["want", "ready", "next", "withdraw", "valid", "set", "ovalid", "de", "hsync", "vsync", "taken"], limit=30000)
    s = timing()
    # real pictures
    trs = []
    for k in range(40 if c.thorough else 16):
        sets = [params(c.rng, 40, 12, wild=True) for _ in range(5)]
        if k == 0:
            sets[1] = [1920, 2008, 2052, 2199, 3, 4, 6, 7]
            sets[2] = [4000, 4010, 4080, 4095, 1, 1, 2, 2]
        if k == 1:
            sets[1] = [4, 5, 6, 7, 1080, 1084, 1089, 1124]
            sets[2] = [1, 2, 3, 3, 4000, 4080, 4090, 4095]
        rows = []
        s.reset()
        i = 0
        pr = (1, .7, .3)[k % 3]
        v, gap = 1, 0
        rdy = c.rng.random(60000) < pr
        for r in rdy[:34000 if k < 2 else 12000]:
            r = int(r)
            s.set(v=v, r=r, **dict(zip(PNAMES, sets[i])))
            s.settle()
            o = s.outs()
            o = [int(x) for x in o]
            rows.append([v, r, i + 1] + o)
            s.tick()
            if v and o[4]:
                if c.rng.random() < .3:
                    v, gap = 0, int(c.rng.integers(1, 6))
                i = int(c.rng.integers(0, len(sets))) if k > 1 else (i + 1) % 3
            elif not v:
                gap -= 1
                v = int(gap <= 0)
            elif k % 4 == 3 and c.rng.random() < .01:     # withdrawn in the middle of a frame
                v, gap = 0, int(c.rng.integers(1, 6))
        trs.append(({"sets": sets}, rows))
    c.traces("rasters", "VideoOut", "Tim", trs, cols=TIMCOLS)
    c.assumptions += ["1 <= sync start <= sync end <= scan, 1 <= resolution <= scan + 1; a parameter set changes only when taken or withdrawn"]


# ---------------------------------------------------------------- memory
class Mem(Module):
    """a DRAM port's other side: answers in order, whenever it is willing"""
    def __init__(self, port, cd, mul=1, mod=1 << 24, amod=1 << 24, raw=False, depth=64, hi=0, latency=0):
        self.cok, self.rok = Signal(), Signal()
        due = self.rok
        if latency:
            # words come that many clocks after their commands at the earliest
            late = Signal(latency)
            owed = Signal(10)
            got = port.cmd.valid & port.cmd.ready
            getattr(self.sync, cd).__iadd__([late.eq(Cat(got, late)), owed.eq(owed + late[-1] - (port.rdata.valid & port.rdata.ready))])
            due = self.rok & (owed != 0)
        f = ClockDomainsRenamer(cd)(stream.SyncFIFO([("a", port.address_width)], depth))
        self.submodules += f
        a = Signal(30)
        w = Signal(48)
        self.comb += [f.sink.valid.eq(port.cmd.valid & self.cok), port.cmd.ready.eq(f.sink.ready & self.cok),
                      f.sink.a.eq(port.cmd.addr), port.rdata.valid.eq(f.source.valid & due),
                      f.source.ready.eq(port.rdata.valid), a.eq(f.source.a & (amod - 1)), w.eq(a * mul)]
        if raw:
            self.comb += port.rdata.data.eq(Cat(w[:20], a[:10], w[20:22]))
        else:
            n = mod.bit_length() - 1
            # bits the output must not look at
            # with other upper address bits, other data
            w2 = Signal(48)
            self.comb += w2.eq(Mux((f.source.a >> 24) == hi, w, ~w))
            self.comb += port.rdata.data.eq(Cat(w2[:n], Replicate(1, max(0, port.data_width - n))))


class CoreTop:
    def __init__(self, mode, depth, genlock=None, mul=1, mod=1 << 24, width=32, cd="pix", aw=24, hi=0, latency=0):
        from litedram.common import LiteDRAMNativePort
        from litevideo.output.core import VideoOutCore
        dw = {"rgb": 32, "raw": 32, "ycbcr422": 16}[mode]
        self.port = p = LiteDRAMNativePort("read", aw, dw, clock_domain=cd)
        self.cd, self.hi, self.width = cd, hi, width
        if genlock:
            from litevideo.output.common import frame_timing_layout
            genlock = stream.Endpoint(frame_timing_layout)
        self.genlock = genlock
        core = VideoOutCore(p, mode, depth, genlock_stream=genlock)
        regs = Regs(core, width=width)
        regs.submodules.mem = mem = Mem(p, cd, mul, mod, hi=hi, latency=latency)
        o = core.source
        ins = dict(regs.ins(), cok=mem.cok, rok=mem.rok, rdy=o.ready)
        if genlock is not None:
            ins.update(gv=genlock.valid, gde=genlock.de, ghs=genlock.hsync, gvs=genlock.vsync)
        outs = dict(ov=o.valid, de=o.de, hs=o.hsync, vs=o.vsync, data=o.data, cv=p.cmd.valid, cr=p.cmd.ready, ca=p.cmd.addr,
                    rv=p.rdata.valid, rr=p.rdata.ready, uen=core.underflow_enable.storage, uup=core.underflow_update.re,
                    ucnt=core.underflow_counter.status, cwe=p.cmd.we)
        self.sim = FastSim(regs, ins, outs, domains=[cd, "sys"])
        self.addr = regs.finish()
        self.shift = {32: 2, 16: 1}[dw]

    def reg(self, part):
        """word addresses of a register, most significant first"""
        m = {n: a for n, a in self.addr.items() if re.search(r"(^|_)%s\d*$" % part, n)}
        Missing.unless(m, part, self.addr)
        return [a for n, a in sorted(m.items(), reverse=True)]


VIDCOLS = ["set", "ovalid", "oready", "de", "hsync", "vsync", "data", "cmd_valid", "cmd_ready", "cmd_addr", "read_valid", "read_ready", "willing"]


def run_core(c, R, n, plan, mem_p=(1, 1), ready_p=1, pp=1, sp=1, stops=False):
    """plan: {cycle: (register, value)}; returns inputs, outputs, tick flags, when the writes took effect"""
    s, rng = R.sim, c.rng
    m = np.zeros((n, s.nin), dtype=np.int64)
    st = rng.random(n) < sp
    pt = rng.random(n) < pp
    eff = []
    for t, name, v in plan:
        adr = R.reg(name)
        # a register written in several pieces may take software a while
        slow = int(rng.choice([0, 30, 180])) if len(adr) > 1 and t > 400 else 0
        for i, a in enumerate(adr):
            if i and slow and t + slow + 60 < n:
                t += int(rng.integers(slow))
            # a bus write takes effect on a system clock tick
            while not st[t] or m[t, s.inidx["b_we"]]:
                t += 1
            m[t, s.inidx["b_we"]] = 1
            m[t, s.inidx["b_adr"]] = a
            m[t, s.inidx["b_dat"]] = v if len(adr) == 1 else v >> 8 * (len(adr) - 1 - i) & 255
        eff.append((t, name, v))
    m[:, s.inidx["cok"]] = rng.random(n) < mem_p[0]
    m[:, s.inidx["rok"]] = rng.random(n) < mem_p[1]
    m[:, s.inidx["rdy"]] = rng.random(n) < ready_p
    masks = pt * s._mask_of([R.cd]) + st * s._mask_of(["sys"])
    s.reset()
    o = s.run(m, masks=masks)
    if stops:
        # memory that takes no command for a while around a stop of the output and a new start
        on = sorted((t, v) for t, name, v in eff if name == "initiator_enable")
        for (t0, v0), (t1, v1) in zip(on, on[1:]):
            if v0 or not v1 or rng.random() < .3:
                continue
            ov = np.flatnonzero(o[t0:t1, s.outidx["ov"]])
            end = t0 + int(ov[-1]) if len(ov) else t0
            a, b = end + int(rng.integers(-20, 4)), t1 + int(rng.integers(10, 120))
            if t1 - end > 10:
                m[a:b, s.inidx["cok"]] = 0
                s.reset()
                o = s.run(m, masks=masks)
    return m, o, pt, st, eff


def history(eff, n, shift):
    """the parameter sets the registers held"""
    reg = {x: 0 for x in PNAMES + ["base", "length", "enable"]}
    sets, cur = [], np.zeros(n, dtype=np.int64)

    def add():
        sets.append([reg[x] for x in PNAMES] + [reg["base"] >> shift, reg["length"] >> shift, reg["enable"]])
    add()
    last = 0
    for t, name, v in sorted(eff):
        name = name.replace("initiator_", "")
        if name in reg:
            cur[last:t + 1] = len(sets)
            reg[name] = v
            add()
            last = t + 1
    cur[last:] = len(sets)
    return sets, cur


def byte(rng, word, shift):
    """an address or length in bytes; what is less than a word does not count"""
    return (word << shift) + (int(rng.integers(0, 1 << shift)) if rng is not None and rng.random() < .5 else 0)


def setup(p, base, words, shift, t=4, rng=None):
    plan = []
    for n, v in list(zip(PNAMES, p)) + [("base", byte(rng, base, shift)), ("length", byte(rng, words, shift))]:
        plan.append((t, "initiator_" + n, v))
        t += 3
    plan.append((t, "initiator_enable", 1))
    return plan


def ticks(p):
    return (p[3] + 1) * (p[7] + 1)


def vid_case(c, R, mode, kind, n, depth, small=False):
    rng = c.rng
    while True:
        p = params(rng, 24, 10)
        words = ticks(p) if mode == "raw" else p[0] * p[4]
        if words > depth + 4:
            break
    shift = R.shift
    top = R.hi << 24
    base = top + int(rng.integers(0, 1 << 20)) if R.hi or rng.random() < .8 else (1 << 24) - words // 2
    mem_p = [(1, 1), (.9, .9), (.4, 1), (1, .6), (.5, .5)][int(rng.integers(5))]
    ready_p = [1, 1, .8, .4][int(rng.integers(4))]
    pp, sp = [(1, 1), (.5, 1), (1, .5), (.7, .7)][int(rng.integers(4))]
    if mode == "raw":
        mem_p, ready_p = (1, 1), 1
    plan = setup(p, base, words, shift, rng=rng)
    t = 60
    if kind == "base":
        while t < n - 50:
            t += int(rng.integers(20, 3 * ticks(p) / min(pp, ready_p)))
            plan.append((t, "initiator_base", byte(rng, top + int(rng.integers(0, 1 << 20)), shift)))
    elif kind == "sync":
        # the raster's syncs and porches move while the picture runs
        while t < n - 50:
            t += int(rng.integers(20, 4 * ticks(p) / min(pp, ready_p)))
            q = list(p)
            hs = p[0] + int(rng.integers(0, min(2, p[2] - p[0]) + 1))
            plan.append((t, "initiator_hsync_start", hs)) if rng.random() < .5 else plan.append((t, "initiator_hscan", p[3] + int(rng.integers(0, 6))))
    elif kind == "onoff":
        while t < n - 400:
            t += int(rng.integers(3 * ticks(p), 12 * ticks(p)) / pp / ready_p)
            plan.append((t, "initiator_enable", 0))
            t += int(rng.choice([2, 5, 9, 15, 40])) if rng.random() < .3 else int(rng.integers(4 * ticks(p), 9 * ticks(p)) / pp / min(ready_p, mem_p[0], mem_p[1]))
            if rng.random() < .6:
                plan.append((t, "initiator_base", byte(rng, top + int(rng.integers(0, 1 << 20)), shift)))
            t += 3
            plan.append((t, "initiator_enable", 1))
    plan = [x for x in plan if x[0] < n - 30]
    m, o, pt, st, eff = run_core(c, R, n, out_gap(plan, n, later=600 if R.width == 8 else 20), mem_p, ready_p, pp, sp, kind == "onoff" and mode != "raw")
    sets, cur = history(eff, n, shift)
    s = R.sim
    i, oi = s.inidx, s.outidx
    rows = np.stack([cur, o[:, oi["ov"]], m[:, i["rdy"]], o[:, oi["de"]], o[:, oi["hs"]], o[:, oi["vs"]], o[:, oi["data"]],
                     o[:, oi["cv"]], o[:, oi["cr"]], o[:, oi["ca"]], o[:, oi["rv"]], o[:, oi["rr"]], m[:, i["cok"]] & m[:, i["rok"]]], 1)[pt]
    if mode == "raw":
        # the top byte the memory fills with ones
        rows[:, 6] = np.where(rows[:, 6] >> 24 == 255, rows[:, 6] & 0xffffff, np.where(rows[:, 1], -1, 0))
    c.need(not (o[:, oi["cv"]] & o[:, oi["cwe"]]).any(), "core", "writes_memory", {})
    hdr = dict(sets=sets, mul=1, mod={"rgb": 1 << 24, "raw": 1 << 24, "ycbcr422": 1 << 16}[mode], amod=1 << 24, raw=mode == "raw",
               lim=150, offlim=3 * words + int(120 / sp) + 300)
    if pp < 1 and sp < 1:
        hdr["offlim"] *= 2
    return hdr, rows.tolist()


def out_gap(plan, n, gap=20, later=20):
    """spread writes so that each can be moved to the next system tick"""
    out, last = [], -100
    for t, a, v in sorted(plan, key=lambda x: x[0]):
        t = max(t, last + (gap if t <= 60 else later))
        last = t
        if t < n - 40:
            out.append((t, a, v))
    return out


def O02(c):
    n = 26000 if c.thorough else 9000
    trs = {}
    for mode, depth in (("rgb", 16), ("ycbcr422", 32), ("rgb", 64), ("raw", 16)):
        R = CoreTop(mode, depth, mod={"rgb": 1 << 24, "raw": 1 << 24, "ycbcr422": 1 << 16}[mode])
        for kind in ("run", "base", "sync", "onoff"):
            if mode == "raw" and kind == "sync":
                continue
            for k in range(16 if c.thorough else 6):
                trs.setdefault(kind, []).append(vid_case(c, R, mode, kind, n, depth))
    # parameters written in bytes
    R = CoreTop("rgb", 16, width=8)
    for kind in ("base", "sync"):
        for k in range(8 if c.thorough else 4):
            trs[kind].append(vid_case(c, R, "rgb", kind, n, 16))
    # another clock domain, more address bits
    for aw, hi in ((27, 5), (30, 37), (30, 26)):
        R = CoreTop("rgb", 16, cd="video", aw=aw, hi=hi)
        for kind in ("base", "onoff"):
            for k in range(8 if c.thorough else 2):
                trs[kind].append(vid_case(c, R, "rgb", kind, n, 16))
    # more words than 16 bits count
    R = CoreTop("rgb", 64)
    trs["large"] = [vid_case_fixed(c, R, [350, 350, 352, 354, 200, 201, 202, 203], "run", 150000)]
    # the default buffer depth
    R = CoreTop("rgb", 512)
    for kind in ("run", "base", "onoff"):
        p = [40, 42, 45, 50, 16, 17, 19, 22]
        trs[kind].append(vid_case_fixed(c, R, p, kind, 26000))
    c.par([lambda k=k: c.traces({"run": "frames from memory", "large": "large frames", "base": "base changed while running", "sync": "raster changed while running",
                                 "onoff": "disabled and enabled again"}[k], "VideoOut", "Vid", trs[k], cols=VIDCOLS, workers=4) for k in trs], workers=2)
    big_frames(c)
    genlock(c)
    c.assumptions += ["words per frame (length) = hres*vres, more than the reader's buffer; raw mode with memory that is never late",
                      "registers other than the base and the syncs change only while disabled"]


def vid_case_fixed(c, R, p, kind, n):
    words = p[0] * p[4]
    plan = setup(p, 0x1234, words, 2)
    tk = ticks(p)
    if kind == "base":
        plan += [(int(tk * (2.3 + 1.7 * i)), "initiator_base", (0x20000 + 0x3000 * i) << 2) for i in range(10)]
    if kind == "onoff":
        plan += [(tk * 2, "initiator_enable", 0), (tk * 7 + 100, "initiator_enable", 1),
                 (tk * 9, "initiator_enable", 0), (tk * 15 + 30, "initiator_enable", 1)]
    m, o, pt, st, eff = run_core(c, R, n, out_gap(plan, n))
    sets, cur = history(eff, n, 2)
    i, oi = R.sim.inidx, R.sim.outidx
    rows = np.stack([cur, o[:, oi["ov"]], m[:, i["rdy"]], o[:, oi["de"]], o[:, oi["hs"]], o[:, oi["vs"]], o[:, oi["data"]],
                     o[:, oi["cv"]], o[:, oi["cr"]], o[:, oi["ca"]], o[:, oi["rv"]], o[:, oi["rr"]], m[:, i["cok"]] & m[:, i["rok"]]], 1)[pt]
    return dict(sets=sets, mul=1, mod=1 << 24, amod=1 << 24, raw=False, lim=150, offlim=3 * words + 300), rows.tolist()


def big_frames(c):
    """pictures of full size, in runs of accepted ticks"""
    sizes = [[3840, 3888, 3920, 3999, 2160, 2163, 2168, 2180]]
    if c.thorough:
        sizes += [[1920, 2008, 2052, 2199, 1080, 1084, 1089, 1124], [4000, 4005, 4010, 4090, 4000, 4003, 4008, 4095],
                  [1920, 1968, 2000, 2079, 1200, 1203, 1209, 1234], [4095, 4095, 4095, 4095, 3000, 3000, 3001, 3005]]
    R = CoreTop("rgb", 64)
    s = R.sim
    i, oi = s.inidx, s.outidx
    trs = []
    for p in sizes:
        words, base = p[0] * p[4], 0x1234 if p[0] * p[4] < 1 << 24 else 7
        rows, left = [], ticks(p) + 40 * (p[3] + 1)
        first, phase = True, 0
        s.reset()
        chunk = 1 << 18
        while left > 0:
            m = np.zeros((chunk, s.nin), dtype=np.int64)
            for x in ("cok", "rok", "rdy"):
                m[:, i[x]] = 1
            if first:
                for t, name, v in setup(p, base, words, 2):
                    m[t, i["b_we"]], m[t, i["b_adr"]], m[t, i["b_dat"]] = 1, R.reg(name)[0], v
            o = s.run(m)
            o = o[o[:, oi["ov"]] == 1][:, [oi[x] for x in ("de", "hs", "vs", "data")]]
            if first and len(o):
                o, first = o[1:], False
            if not len(o):
                break
            sig = o[:, 0] * 4 + o[:, 1] * 2 + o[:, 2]
            new = np.ones(len(o), dtype=bool)
            new[1:] = (sig[1:] != sig[:-1]) | ((o[1:, 0] == 1) & (o[1:, 3] != o[:-1, 3] + 1))
            new |= (phase + np.arange(len(o))) % (p[3] + 1) == 0
            phase = (phase + len(o)) % (p[3] + 1)
            a = np.flatnonzero(new)
            e = np.append(a[1:], len(o))
            rows += np.stack([e - a, o[a, 0], o[a, 1], o[a, 2], o[a, 3], o[e - 1, 3]], 1).tolist()
            left -= len(o)
        c.need(left <= 0, "full size pictures", "pixels_withheld", dict(params=p))
        trs.append((dict(p=p + [base, words, 1], mul=1, mod=1 << 24, amod=1 << 24), rows))
    c.traces("full size pictures", "VideoOut", "Big", trs, cols=["ticks", "de", "hsync", "vsync", "first", "last"], cap=300000)


def genlock(c):
    trs = []
    tops = [(m, CoreTop(m, d, genlock=True, mod=1 << (16 if m == "ycbcr422" else 24), latency=lat), lat) for m, d, lat in
            (("rgb", 16, 0), ("ycbcr422", 64, 20), ("rgb", 16, 7), ("ycbcr422", 64, 0))]
    for k in range(96 if c.thorough else 32):
        mode, R, lat = tops[k // 2 % 4]
        s = R.sim
        p = [int(c.rng.integers(8, 16)), 17, 19, 24, int(c.rng.integers(9, 12)), 13, 15, 24]
        words = p[0] * p[4]
        delay = (int(c.rng.integers(0, 20)) if c.rng.random() < .6 else int(c.rng.integers(1 << 16, 1 << 22))) if k else 0
        base = int(c.rng.integers(0, 1 << 16))
        n = ticks(p) * 16
        m = np.zeros((n, s.nin), dtype=np.int64)
        t = np.arange(n)
        h, v = t % (p[3] + 1), (t // (p[3] + 1)) % (p[7] + 1)
        m[:, s.inidx["gv"]] = 1
        m[:, s.inidx["gde"]] = (h < p[0]) & (v < p[4])
        m[:, s.inidx["ghs"]] = (h >= p[1]) & (h < p[2])
        m[:, s.inidx["gvs"]] = (v >= p[5]) & (v < p[6])
        ok = np.ones(n, dtype=np.int64)
        # the memory is late now and then
        for f in range(3, 16):
            if c.rng.random() < .45:
                a = f * ticks(p) + int(c.rng.integers(0, ticks(p)))
                if c.rng.random() < .5:
                    ok[a:a + int(c.rng.integers(1, 500))] = 0
                elif c.rng.random() < .5:
                    # stopped from somewhere in the picture until just before the vsync
                    e = f * ticks(p) + p[5] * (p[3] + 1)
                    ok[e - int(c.rng.integers(120, 330)):e - int(c.rng.integers(0, lat + 3))] = 0
                else:
                    e = a + int(c.rng.integers(20, 600))
                    ok[a:e] = c.rng.random(n)[a:e] < .4
        m[:, s.inidx["rdy"]] = 1
        for x in ("cok", "rok"):
            m[:, s.inidx[x]] = ok
        # started at any point of the external frame, often in its first words
        t0 = 40 + int(c.rng.integers(0, ticks(p))) if k % 3 else ticks(p) - 36 + int(c.rng.integers(0, 40))
        plan = [(3, "dma_delay_base", delay)] + setup(p, base, words + delay, R.shift, 8)
        plan[-1] = (t0, ) + plan[-1][1:]
        for tt, nme, val in plan:
            m[tt, s.inidx["b_we"]] = 1
            m[tt, s.inidx["b_adr"]], = R.reg(nme)
            m[tt, s.inidx["b_dat"]] = val
        s.reset()
        o = s.run(m)
        oi, i = s.outidx, s.inidx
        rows = np.concatenate([m[:, [i["gde"], i["ghs"], i["gvs"]]], o[:, [oi["ov"], oi["de"], oi["hs"], oi["vs"], oi["data"]]], ok[:, None]], 1)
        trs.append((dict(base=base, delay=delay, mul=1, mod=1 << (16 if mode == "ycbcr422" else 24), amod=1 << 24), rows.tolist()))
        cv, cr, ca = (o[:, oi[x]] for x in ("cv", "cr", "ca"))
        held = (cv[:-1] == 1) & (cr[:-1] == 0)
        c.need(not (held & ((cv[1:] == 0) | (ca[1:] != ca[:-1]))).any(), "locked to an external raster", "command_withdrawn", {})
    c.traces("locked to an external raster", "VideoOut", "Gen", trs, cols=["de", "hs", "vs", "ovalid", "ode", "ohs", "ovs", "data", "willing"])


# ---------------------------------------------------------------- O03
def O03(c):
    trs = []
    R = CoreTop("rgb", 16)
    s = R.sim
    for k in range(160 if c.thorough else 60):
        n = 7000
        p = params(c.rng, 24, 10)
        plan = setup(p, 64, p[0] * p[4], 2)
        plan.append((45, "underflow_enable", 1))
        t, en, on = 80, 1, 1
        while t < n - 60:
            t += int(c.rng.integers(20, 300))
            x = c.rng.random()
            if x < .08 or (not en and x < .4):
                en = 1 - en
                plan.append((t, "underflow_enable", en))
            elif x < .11 or (not on and x < .5):
                on = 1 - on
                plan.append((t, "initiator_enable", on))
            else:
                plan.append((t, "underflow_update", 1))
        m, o, pt, st, eff = run_core(c, R, n, out_gap(plan, n), [(1, 1), (.4, 1), (.9, .3)][k % 3], [1, .5][k // 3 % 2],
                                *[(1, 1), (.4, 1), (1, .3), (.8, .8)][k // 6 % 4])
        oi = s.outidx
        rows = np.concatenate([pt[:, None] * 1, st[:, None] * 1, o[:, [oi["uen"], oi["uup"], oi["ov"], oi["ucnt"]]]], 1)
        trs.append(({}, rows.tolist()))
    c.traces("underflow counter", "VideoOut", "Und", trs, cols=["pix", "sys", "enable", "update", "ovalid", "counter"])
    long_underflow(c)


def long_underflow(c):
    """the whole width of the counter, read while no output is offered"""
    R = CoreTop("rgb", 16)
    s = R.sim
    i, oi = s.inidx, s.outidx
    rows = []
    s.reset()
    count = [0]

    def play(n, mem, writes=()):
        while n > 0:
            q = min(n, 1 << 19)
            m = np.zeros((q, s.nin), dtype=np.int64)
            m[:, i["rdy"]] = 1
            for x in ("cok", "rok"):
                m[:, i[x]] = mem
            for t, name, v in writes:
                m[t, i["b_we"]], m[t, i["b_adr"]], m[t, i["b_dat"]] = 1, R.reg(name)[0], v
            o = s.run(m)
            count[0] += int((o[:, oi["ov"]] == 0).sum())
            n -= q
            writes = ()
        return o

    play(300, 1, setup([9, 10, 12, 14, 4, 5, 6, 7], 64, 36, 2) + [(60, "underflow_enable", 1)])
    prev = None
    for n in [1000, 70001, 1 << 20, (1 << 24) + 77] + ([1 << 27, (1 << 28) + 5] if c.thorough else []):
        play(int(c.rng.integers(500, 3000)), 1)
        play(n, 0)
        a = count[0]
        o = play(40, 0, [(0, "underflow_update", 1)])
        v = int(o[-1, oi["ucnt"]])
        if prev is not None:
            rows.append([a - prev[0], prev[1], v])
        prev = a, v
        # a reading stays until the next request
        o = play(200, 0)
        c.need((o[:, oi["ucnt"]] == v).all(), "long underflows", "reading_changed", {})
    c.func("long underflows", "VideoOut", "UndLong", [({}, rows)], cols=["cycles without output", "earlier reading", "reading"])


# ---------------------------------------------------------------- O04
class WireTop:
    """a whole video output, observed on what its serialisers are given"""
    def __init__(self, family, phy, mode, inv=(0, 0, 0, 0), bits=(8, 8, 8), external=False, depth=32):
        from litedram.common import LiteDRAMNativePort
        from litevideo.output import VideoOut
        from migen.fhdl.specials import Instance
        from migen.genlib.record import Record
        p = LiteDRAMNativePort("read", 24, 16 if mode == "ycbcr422" else 32, clock_domain="pix")
        if phy == "hdmi":
            pads = Record([(n + x, 1) for n in ("data0", "data1", "data2", "clk") for x in ("_p", "_n")])
            for n, v in zip(("data0", "data1", "data2", "clk"), inv):
                if v:
                    getattr(pads, n + "_p").inverted = True
        else:
            pads = Record([("hsync_n", 1), ("vsync_n", 1), ("r", bits[0]), ("g", bits[1]), ("b", bits[2]), ("psave_n", 1), ("clk", 1)])
        ext = None
        if external:
            ext = Record([("pll0_pix10x", 1), ("pll1_pix2x", 1), ("pll2_pix", 1), ("pll_locked", 1)])
        top = VideoOut({"7": "xc7a100t", "6": "xc6slx45"}[family], pads, p, mode, depth, ext)
        regs = Regs(top)
        raw = mode == "raw"
        regs.submodules.mem = mem = Mem(p, "pix", 40503, 1 << (20 if raw else 16 if mode == "ycbcr422" else 24), 1 << 15, raw)
        f = regs.get_fragment()
        ins = dict(regs.ins(), cok=mem.cok, rok=mem.rok)
        outs = {}
        self.family, self.phy = family, phy
        V = Vendor(f)
        if family == "7":
            ins["locked"] = V.left["MMCME2_ADV"][0]["LOCKED"]
        for d, sig in V.loads.items():
            ins["ld_" + d] = sig
        if phy == "vga":
            ins["pixclk"], self.pixinv = V.root(next(cd for cd in f.clock_domains if cd.name == "pix").clk)
            outs.update(ck=pads.clk, h=pads.hsync_n, v=pads.vsync_n, r=pads.r, g=pads.g, b=pads.b, ps=pads.psave_n)
        else:
            for k, n in enumerate(("data0", "data1", "data2", "clk")):
                for x in "pn":
                    outs["%s%d" % (x, k)] = getattr(pads, "%s_%s" % (n, x))
        if family == "6":
            ins["pixclk"], self.pixinv = V.root(next(cd for cd in f.clock_domains if cd.name == "pix").clk)
        self.doms = {"pix": 10, **({"pix2x": 5, "pix10x": 1} if family == "6" else {"pix5x": 1})}
        self.sim = FastSim(f, ins, outs, domains=["sys"] + list(self.doms))
        self.addr = regs.finish()
        self.shift = 1 if mode == "ycbcr422" else 2
        self.hdr = dict(mode=mode, phy=phy, inv=[int(x) for x in inv], keepbits=list(bits), mul=40503,
                        mod=1 << (20 if raw else 16 if mode == "ycbcr422" else 24), amod=1 << 15, raw=raw)

    reg = CoreTop.reg

    def record(self, c, p, base, words, n, pauses=()):
        """n pixel clocks; pauses: (first, last) clock in which the memory takes no reads"""
        s, i = self.sim, self.sim.inidx
        k = 2 if self.phy == "vga" else 10      # bits per pixel
        N = n * k
        m = np.zeros((N, s.nin), dtype=np.int64)
        for x in ("cok", "rok"):
            m[:, i[x]] = 1
        for x, y in pauses:
            m[x * k:y * k, i["cok"]] = 0
        if "locked" in i:
            m[20 * k:, i["locked"]] = 1
        # the last step of each pixel is where its clock ticks; the clock is high in the first half of the pixel
        j = np.arange(N)
        masks = np.zeros(N, dtype=np.uint32)
        for d, e in self.doms.items():
            on = j % min(e, k) == min(e, k) - 1
            masks[on] |= s._mask_of([d])
            if "ld_" + d in i:
                m[:, i["ld_" + d]] = on
        masks[j % k == k - 1] |= s._mask_of(["sys"])
        if "pixclk" in i:
            m[:, i["pixclk"]] = (j % k < (k + 1) // 2) ^ self.pixinv
        t = 60 + int(c.rng.integers(0, 40))
        for tt, name, v in setup(p, base, words, self.shift, t):
            q = slice(tt * k, tt * k + k)
            m[q, i["b_we"]] = 1
            m[q, i["b_adr"]], = self.reg("core_" + name)
            m[q, i["b_dat"]] = v
        s.reset()
        o = s.run(m, masks=masks)
        oi = s.outidx
        if self.phy == "vga":
            c.need((o[:, oi["ps"]] == 1).all(), "connector", "power_save", {})
            o = o.reshape(n, k, -1)
            return np.concatenate([o[:, 1][:, [oi[x] for x in "hvrgb"]], o[:, 0][:, [oi[x] for x in "hvrgb"]], o[:, :, oi["ck"]]], 1)
        # words of ten bits, first one least significant
        w = (o.reshape(n, k, -1) << np.arange(k)[None, :, None]).sum(1)
        return w[:, [oi["%s%d" % (x, q)] for x in "pn" for q in range(4)]]


WIRECOLS = {"hdmi": ["data0", "data1", "data2", "clock", "data0_n", "data1_n", "data2_n", "clock_n"], "vga": ["hsync_n", "vsync_n", "r", "g", "b", "hsync_n_first_half", "vsync_n_", "r_", "g_", "b_", "clk_first_half", "clk_second_half"]}


def wire_raster(rng, mode):
    p = params(rng, 24, 8)
    p[1:4] = [x + 3 for x in p[1:4]]
    p[5:8] = [x + 1 for x in p[5:8]]
    if mode == "ycbcr422":
        d = p[0] & 1
        p[0] += d
        p[1:4] = [x + d for x in p[1:4]]
    p[6] = max(p[6], p[5] + 1)
    p[7] = max(p[7], p[6])
    return p


def O04(c):
    conf = [("7", "hdmi", "rgb", (0, 0, 0, 0)), ("7", "hdmi", "rgb", (1, 0, 1, 1)), ("7", "hdmi", "ycbcr422", (0, 1, 0, 0)), ("7", "hdmi", "raw", (0, 1, 0, 0)),
            ("6", "hdmi", "rgb", (0, 0, 0, 0)), ("6", "hdmi", "rgb", (0, 1, 1, 1)), ("6", "hdmi", "ycbcr422", (1, 0, 0, 0)), ("6", "hdmi", "raw", (0, 0, 1, 0)),
            ("7", "vga", "rgb", (8, 8, 8)), ("7", "vga", "rgb", (3, 3, 2)), ("7", "vga", "ycbcr422", (5, 6, 5)), ("6", "vga", "rgb", (4, 4, 4)), ("6", "hdmi", "rgb", "ext")]
    trs = {}
    for fam, phy, mode, x in conf:
        if phy == "vga":
            R = WireTop(fam, phy, mode, bits=x)
        elif x == "ext":
            R = WireTop(fam, phy, mode, external=True)
        else:
            R = WireTop(fam, phy, mode, inv=x)
        for k in range(24 if c.thorough else 6):
            while True:
                p = wire_raster(c.rng, mode)
                words = ticks(p) if mode == "raw" else p[0] * p[4]
                if words > 70:
                    break
            if k == 2:
                p[2] = max(p[2], p[1] + 1)
            base = int(c.rng.integers(0, 1 << 18))
            n = min(9 * ticks(p) + 500, 5000)
            rows = R.record(c, p, base, words, n)
            trs.setdefault("Raw" if mode == "raw" else "Wire " + phy, []).append((dict(R.hdr, p=p + [base, words, 1]), rows.tolist()))
    # a deep buffer bridges long pauses of the memory
    for depth, p in ((1024, [96, 100, 110, 150, 20, 22, 23, 26]),) + (((2048, [128, 130, 150, 220, 30, 31, 32, 33]),) if c.thorough else ()):
        R = WireTop("7", "vga", "rgb", depth=depth)
        words, base = p[0] * p[4], int(c.rng.integers(0, 1 << 18))
        # filled by then, and in the second picture
        full = max(int(1.1 * depth / (1 - words / ticks(p))), ticks(p)) + 300
        at = full + int(c.rng.integers(0, 300))
        # a line shows words in less than .65 of its clocks
        rows = R.record(c, p, base, words, at + 2 * depth + ticks(p) // 2, [(at, at + int(1.35 * depth))])
        trs.setdefault("Wire vga", []).append((dict(R.hdr, p=p + [base, words, 1]), rows.tolist()))
    for name, t in trs.items():
        pre = name.split()[0]
        c.traces("connector, " + {"Raw": "raw symbols", "Wire hdmi": "HDMI", "Wire vga": "VGA"}[name], "VideoOut", pre, t, final=pre + "Final",
                 cols=WIRECOLS["vga" if "vga" in name else "hdmi"])


# ---------------------------------------------------------------- O05
def O05(c):
    from litevideo.output.pattern import ColorBarsPattern, VerticalLinesPattern, DotsPattern
    trs = []
    for kind, cls in (("bars", ColorBarsPattern), ("lines", VerticalLinesPattern), ("dots", DotsPattern)):
        d = cls()
        s = FastSim(d, {"v": d.sink.valid, "hres": d.sink.hres, "rdy": d.source.ready},
                    {"ov": d.source.valid, "r": d.source.r, "g": d.source.g, "b": d.source.b})
        sizes = [8, 16, 640, 1920, 4088] + [int(x) * 8 for x in c.rng.integers(1, 512, 60 if c.thorough else 16)]
        if kind == "dots":
            sizes += [2, 4, 6, 4094]
        for h in sizes:
            for gated in (False, True):
                n = max(600, h * 5 // 2 if h > 1000 else h * 19) * (2 if gated else 1)
                n = min(n, 14000)
                m = np.zeros((n, 3), dtype=np.int64)
                m[int(c.rng.integers(0, 5)):, 0] = 1
                m[:, 1] = h
                m[:, 2] = c.rng.random(n) < c.rng.choice([.3, .5, .8]) if gated else 1
                s.reset()
                o = s.run(m)
                trs.append((dict(kind=kind, hres=h), np.concatenate([m[:, [0, 2]], o], 1).tolist()))
    c.traces("test patterns", "VideoOut", "Pat", trs, cols=["valid", "ready", "ovalid", "r", "g", "b"])
    c.assumptions += ["line length constant, a multiple of eight for the bars and even for the dots; parameters stay valid once given"]


# ---------------------------------------------------------------- O06
def io(i, name, kind=None):
    from migen.fhdl.specials import Instance
    for it in i.items:
        if isinstance(it, (Instance.Input, Instance.Output)) and it.name == name:
            return it.expr


class Clocking:
    def __init__(self, family):
        from migen.fhdl.specials import Instance
        from migen.genlib.record import Record
        from litevideo.output.driver import clocking_cls
        pads = Record([("clk_p", 1), ("clk_n", 1)])
        regs = Regs(clocking_cls["xc" + family](pads, None), width=32)
        f = regs.get_fragment()
        inst = {i.of: i for i in f.specials if isinstance(i, Instance)}
        pll = inst["PLL_ADV" if family == "6" else "MMCME2_ADV"]
        d = regs.dut
        x = "_pll_" if family == "6" else "_mmcm_"
        ins = dict(regs.ins(), DRDY=io(pll, "DRDY"), DO=io(pll, "DO"))
        outs = {n: io(pll, n) for n in ("DEN", "DWE", "DADDR", "DI", "RST")}
        outs.update(drdy=getattr(d, x + "drdy").status, dat_r=getattr(d, x + "dat_r").status)
        if family == "6":
            dcm = inst["DCM_CLKGEN"]
            ins.update(done=io(dcm, "PROGDONE"), locked=io(dcm, "LOCKED"), lock=io(inst["BUFPLL"], "LOCK"))
            outs.update(progdata=io(dcm, "PROGDATA"), progen=io(dcm, "PROGEN"), status=d._status.status)
        else:
            ins["locked"] = io(pll, "LOCKED")
            outs["prst"] = d.cd_pix.rst
        self.pre = x[1:]
        self.s = FastSim(f, ins, outs, domains=["sys"])
        self.addr = regs.finish()

    reg = CoreTop.reg


def out_clocks(c, clk):
    from c_cap import ClockGen, clock_values, ratios, instances, ports
    from migen.genlib.record import Record
    from litevideo.output.driver import clocking_cls
    for fam in "67":
        d = clocking_cls["xc" + fam](Record([("clk_p", 1), ("clk_n", 1)]), None)
        ref = "base50" if fam == "6" else "clk100"
        cd = ClockDomain(ref, reset_less=True)
        setattr(d.clock_domains, "cd_" + ref, cd)
        same = [("g0_CLKFBIN", "g0_CLKFBOUT"), ("g0_DCLK", "clk_sys")]
        extra = [("ref", cd.clk, "in")]
        if fam == "6":
            P = lambda x: (lambda f: ports(instances(f, "DCM_CLKGEN")[0])[x])
            extra += [("dcm_in", P("CLKIN"), "out"), ("dcm_out", P("CLKFX"), "in"), ("dcm_prog", P("PROGCLK"), "out")]
            same += [("dcm_in", "ref"), ("dcm_prog", "clk_sys"), ("g0_CLKIN1", "dcm_out"), ("bufpll_locked", "g0_LOCKED"), ("bufpll_gclk", "clk_pix2x"),
                     ("out_strobe", "strobe")]
            extra += [("out_strobe", d.serdesstrobe, "out")]
            doms, want = ["pix", "pix2x", "pix10x"], [1, 2, 10]
        else:
            same += [("g0_CLKIN1", "ref")]
            doms, want = ["pix", "pix5x"], [1, 5]
        K = ClockGen(d, doms, ["PLL_ADV" if fam == "6" else "MMCME2_ADV"], extra)
        rows = clock_values(c, K, [(0, doms)], same)
        if fam == "6":
            # what software is told about the range of the generator
            v = getattr(getattr(d, "_clkfx_md_max_1000", None), "value", 0)
            rows[0]["same"].append([[int(getattr(v, "value", v))], [round(1000 * K.md_max)]])
        clk.append((dict(ratios(want, K, 0), abs=fam == "6"), rows))


def external_clocks(c):
    """Spartan-6, clocks generated elsewhere: a whole output with its pixel and serialiser clocks from there"""
    from c_cap import instances, params, ports, wires
    from migen.genlib.record import Record
    from litevideo.output import VideoOut
    from litedram.common import LiteDRAMNativePort
    pads = Record([(x + y, 1) for x in ("data0", "data1", "data2", "clk") for y in ("_p", "_n")])
    ext = Record([("pll0_pix10x", 1), ("pll1_pix2x", 1), ("pll2_pix", 1), ("pll_locked", 1)])
    top = VideoOut("xc6slx45", pads, LiteDRAMNativePort("read", 24, 32, clock_domain="pix"), "rgb", 512, ext)
    f = Regs(top).get_fragment()
    wires(f)
    cds = {cd.name: cd for cd in f.clock_domains}
    buf = ports(instances(f, "BUFPLL")[0])
    divide = params(instances(f, "BUFPLL")[0]).get("DIVIDE")
    ser = [ports(x) for x in instances(f, "OSERDES2")]
    ins = {n: getattr(ext, n) for n in ("pll0_pix10x", "pll1_pix2x", "pll2_pix", "pll_locked")}
    ins["strobe"] = buf["SERDESSTROBE"]
    outs = {d: cds[d].clk for d in ("pix", "pix2x", "pix10x")}
    outs.update(locked=buf["LOCKED"], gclk=buf["GCLK"])
    for k, P in enumerate(ser):
        outs.update({"ioce%d" % k: P["IOCE"], "clk0_%d" % k: P["CLK0"], "clkdiv%d" % k: P["CLKDIV"]})
    s = FastSim(f, ins, outs, domains=["sys"], cone=True)
    V = {}
    for k in range(40):
        v = {x: int(c.rng.integers(2)) for x in ins}
        s.set(**v)
        s.settle()
        for x, y in list(v.items()) + list(s.outd().items()):
            V.setdefault(x, []).append(int(y))
    same = [("locked", "pll_locked"), ("gclk", "pll1_pix2x")]
    for k in range(len(ser)):
        same += [("ioce%d" % k, "strobe"), ("clk0_%d" % k, "pll0_pix10x"), ("clkdiv%d" % k, "pll1_pix2x")]
    row = dict(dom=[V[x] for x in ("pix", "pix2x", "pix10x")], out=[V[x] for x in ("pll2_pix", "pll1_pix2x", "pll0_pix10x")],
               same=[[V[a], V[b]] for a, b in same] + [[[divide], [5]]])
    return dict(rate=[1, 2, 10], want=[1, 2, 10], abs=True), [row]


def O06(c):
    drp, dcm, lck, clk = [], [], [], []
    for fam in "67":
        K = Clocking(fam)
        s, i, oi = K.s, K.s.inidx, K.s.outidx
        names = {n: K.reg(K.pre + n)[0] for n in ("adr", "dat_w", "reset", "read", "write")}
        if fam == "6":
            names.update(cmd=[a for n, a in K.addr.items() if re.search(r"(?<!send_)cmd_data\d*$", n)][0],
                         send=K.reg("send_cmd_data")[0], go=K.reg("send_go")[0])
        width = {"adr": 5 if fam == "6" else 7, "dat_w": 16, "reset": 1, "cmd": 10}
        for k in range(60 if c.thorough else 20):
            n = 5000
            m = np.zeros((n, s.nin), dtype=np.int64)
            m[:, i["DRDY"]] = c.rng.random(n) < .1
            m[:, i["DO"]] = c.rng.integers(0, 1 << 16, n)
            for x in ("done", "locked", "lock"):
                if x in i:
                    m[:, i[x]] = np.cumsum(c.rng.random(n) < (.02 if k % 2 else .3)) & 1
            st = {x: 0 for x in width}
            cur = {x: np.zeros(n, dtype=np.int64) for x in list(width) + ["read", "write", "send", "go"]}
            t, free = 2, 0
            seq = list(names)
            while t < n:
                x = seq[int(c.rng.integers(len(seq)))]
                if x == "send":
                    # software waits until the previous command is gone
                    t = max(t, free)
                    if t >= n:
                        break
                    free = t + 14 + int(c.rng.integers(0, 3))
                v = int(c.rng.integers(0, 1 << width[x])) if x in width else 1
                m[t, i["b_we"]], m[t, i["b_adr"]], m[t, i["b_dat"]] = 1, names[x], v
                if x in width:
                    cur[x][t + 1:] = v
                else:
                    cur[x][t] = 1
                t += 1 if c.rng.random() < .5 else int(c.rng.integers(1, 20))
            s.reset()
            o = s.run(m)
            C = lambda *xs: [cur[x] for x in xs]
            I = lambda *xs: [m[:, i[x]] for x in xs]
            O = lambda *xs: [o[:, oi[x]] for x in xs]
            rows = np.stack(C("adr", "dat_w", "reset", "read", "write") + I("DRDY", "DO", "locked") + O("DEN", "DWE", "DADDR", "DI", "RST", "drdy", "dat_r"), 1)
            drp.append((dict(chained=fam == "6"), rows.tolist()))
            if fam == "6":
                dcm.append(({}, np.stack(C("cmd", "send", "go") + I("done", "locked", "lock") + O("progdata", "progen", "status"), 1).tolist()))
            else:
                lck.append((dict(slack=4, status=False), [[int(a), 0, [int(b)]] for a, b in zip(m[:, i["locked"]], o[:, oi["prst"]])]))
    out_clocks(c, clk)
    clk.append(external_clocks(c))
    c.traces("resets without lock", "DataCapture", "Lck", lck, cols=["LOCKED", "status", "resets"])
    c.func("clock connections and rates", "DataCapture", "Clocks", clk)
    c.traces("clock generator commands", "VideoOut", "Dcm", dcm, cols=["cmd", "send", "go", "done", "locked", "lock", "progdata", "progen", "status"])
    c.traces("PLL reconfiguration", "VideoOut", "Drp", drp, cols=["adr", "dat_w", "reset", "read", "write", "DRDY", "DO", "locked", "DEN", "DWE", "DADDR", "DI", "RST", "drdy", "dat_r"])
    c.assumptions += ["software waits for busy to clear before the next command"]


CHECKS = {"O01": O01, "O02": O02, "O03": O03, "O04": O04, "O05": O05, "O06": O06}
