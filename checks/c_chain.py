"""I11: the whole receiver behind the deserialisers: characters in, frames in memory out."""
import re
import numpy as np
from migen import *
from common import Missing, FastSim, values
from csr import Regs
from c_rx import TOK, tmds, cut, GB, VGB, T4TOK


class _Clk(Module):
    def __init__(self, pads, clkin_freq=None, split=None):
        pass


class _Pads:
    pass


class Receiver:
    def __init__(self, mode, hdmi, dw, nslots=2, depth=512):
        import litevideo.input as inp
        from litedram.common import LiteDRAMNativePort
        pads = _Pads()
        taps = []

        class Cap(Module):
            """stands where the deserialiser is: its words are the free inputs"""
            def __init__(self, p, n):
                self.d = Signal(10)
                taps.append((p, self.d))
        for i in range(3):
            setattr(pads, "data%d_p" % i, Signal(name="data%d_p" % i))
            setattr(pads, "data%d_n" % i, Signal())
        save = dict(inp.clocking_cls), dict(inp.datacapture_cls)
        try:
            inp.clocking_cls["xc7"] = _Clk
            inp.datacapture_cls["xc7"] = Cap
            self.port = p = LiteDRAMNativePort("both", 16, dw)
            d = inp.HDMIIn(pads, p, n_dma_slots=nslots, fifo_depth=depth, device="xc7", mode=mode, hdmi=hdmi)
        finally:
            inp.clocking_cls.update(save[0])
            inp.datacapture_cls.update(save[1])
        self.d, self.dw, self.mode, self.nslots, self.depth = d, dw, mode, nslots, depth
        Missing.unless(hasattr(d, "ev"), "ev (slot interrupts)", [x.name for x in d.get_csrs()])
        regs = Regs(d)
        ins = {"raw%d" % i: [s for q, s in taps if q is getattr(pads, "data%d_p" % i)][0] for i in range(3)}
        ins.update(crdy=p.cmd.ready, wrdy=p.wdata.ready, **regs.ins())
        y = d.syncpol
        outs = dict(v=y.valid_o, de=y.de, hs=y.hsync, vs=y.vsync, r=y.r, g=y.g, b=y.b, cv=p.cmd.valid, ca=p.cmd.addr,
                    cwe=p.cmd.we, wv=p.wdata.valid, wm=p.wdata.we, hres=d.resdetection._hres.status,
                    vres=d.resdetection._vres.status, irq=d.ev.irq, b_r=regs.bus.dat_r)
        for i in range(nslots):
            m = [x.storage for x in d.get_csrs() if re.search("slot%d_status$" % i, x.name) and hasattr(x, "storage")]
            Missing.unless(len(m) == 1, "slot%d_status" % i, [x.name for x in d.get_csrs()])
            outs["st%d" % i] = m[0]
        pw = 32 if mode == "rgb" else 16
        self.k = dw // pw
        for i in range(self.k):
            outs["w%d" % i] = p.wdata.data[pw * (self.k - 1 - i):pw * (self.k - i)]
        self.sim = FastSim(regs, ins, outs)
        self.addr = regs.finish()

    def reg(self, part):
        m = [a for n, a in self.addr.items() if re.search(r"(^|_)%s\d*$" % part, n)]
        Missing.unless(len(m) == 1, part, self.addr)
        return m[0]


def source(rng, frames, w, h, pol, hdmi, island=True):
    """characters of a video source: per character <<de, hs, vs, r, g, b>>, symbols and the frames' pixels"""
    info, syms, pics = [], [], []
    cnt = [0, 0, 0]
    # timing: blanking, sync position in it, lines between the pictures and those of the vertical sync
    blank = int(rng.choice([30, 36, 44, 45, 71]))
    hs0 = int(rng.integers(1, 9))      # polarities are those of the first clock after a line
    hs1 = hs0 + int(rng.integers(2, 11))
    vb = int(rng.integers(4, 8))
    v0 = int(rng.integers(0, 2))
    v1 = int(rng.integers(v0 + 1, vb))
    for f in range(frames):
        pic = []
        for y in range(h + vb):
            vs = int(h + v0 <= y < h + v1)
            act = y < h
            like = int(rng.choice([0, 0, 0, 1, 2]))
            for x in range(w):
                if act:
                    px = [int(v) for v in values(rng, 3)]
                    if rng.random() < .1:
                        px = [int(v) for v in rng.choice([0, 255, 16, 128], 3)]
                    if x < like:        # encoded by the characters of the guard band
                        px = [0xab, 0x55, 0xab]
                    pic.append(px)
                    info.append([1, 0, vs] + px)
                    s = []
                    for i, v in enumerate((px[2], px[1], px[0])):
                        q, cnt[i] = tmds(v, cnt[i])
                        s.append(q)
                    syms.append(s)
                else:
                    info.append([0, 0, vs, 0, 0, 0])
                    syms.append([TOK[(vs << 1) ^ pol], TOK[0], TOK[0]])
                    cnt = [0, 0, 0]
            nexta = (y + 1 < h) or y == h + vb - 1
            for x in range(blank):
                hs = int(hs0 <= x < hs1)
                c0 = (hs | vs << 1) ^ pol
                info.append([0, hs, vs, 0, 0, 0])
                cnt = [0, 0, 0]
                c1 = c2 = 0
                if hdmi and nexta and x >= blank - 2:
                    syms.append(list(VGB))
                    continue
                if hdmi and nexta and x >= blank - 10:
                    c1 = 1
                syms.append([TOK[c0], TOK[c1], TOK[c2]])
            if hdmi and island and y == h and f % 2:
                # a data island in the blanking after the picture (constant sync levels)
                i0 = len(syms) - blank - w + 10
                cc = (vs << 1) ^ pol
                n = 32 if w >= 10 + 44 else 0        # syncs stay constant during the island
                if n:
                    for j in range(8):
                        syms[i0 + j] = [TOK[cc], TOK[1], TOK[1]]
                    for j in (8, 9, 42, 43):
                        syms[i0 + j] = [T4TOK[12 + cc], GB, GB]
                    for j in range(10, 42):
                        syms[i0 + j] = [T4TOK[(int(rng.integers(4)) << 2) + cc]] + [T4TOK[int(v)] for v in rng.integers(0, 16, 2)]
        pics.append(pic)
    return np.array(info), np.array(syms), pics


def capture(c, R, w, h, pol, hdmi, dvi, before=False, frames=9):
    rng = c.rng
    info, syms, pics = source(rng, frames, w, h, pol, hdmi and not dvi)
    n = len(syms)
    fl = n // frames
    # any skew the alignment buffers (8 deep) hold, one word being the bit phase
    skew = [int(x) for x in rng.integers(0, 7, 3)]
    raw = []
    for i in range(3):
        ch = np.concatenate([np.full(skew[i], TOK[0]), syms[:, i]])[:n]
        raw.append(cut(ch, int(rng.integers(0, 10)))[:n])
    # clocks: pixel clock against system clock
    sp, pp = [(1, 1), (1, .6), (.8, .5)][int(rng.integers(3))]
    N = int(n / pp * 1.05) + 200
    pt = rng.random(N) < pp
    pt[np.cumsum(pt) > n] = 0
    st = rng.random(N) < sp
    idx = np.clip(np.cumsum(pt) - pt, 0, n - 1)
    s = R.sim
    m = np.zeros((N, s.nin), dtype=np.int64)
    for i in range(3):
        m[:, s.inidx["raw%d" % i]] = raw[i][idx]
    # handshakes and writes happen on system ticks only
    m[:, s.inidx["crdy"]] = rng.random(N) < .8
    m[:, s.inidx["wrdy"]] = rng.random(N) < .8
    # memory away for as long as the buffer holds the words
    free = 0
    for f in range(frames):
        if rng.random() < .7 and R.depth > 24:
            at = int(np.searchsorted(np.cumsum(pt), f * fl + int(rng.integers(fl))))
            e = int(np.searchsorted(np.cumsum(pt), np.cumsum(pt)[min(at, N - 1)] + int((R.depth - 20) * R.k * rng.choice([.4, .8, 1]))))
            if at < free:
                continue
            free = e + 3 * (e - at)         # caught up by then
            for x in ("crdy", "wrdy"):
                m[at:e, s.inidx[x]] = 0
    size = w * h // R.k
    shift = (R.dw // 8).bit_length() - 1
    a = [int(x) for x in rng.choice(60, 3, replace=False) * 1000 + rng.integers(0, 100, 3)]
    plan = [(0, R.reg("frame_size"), size << shift), (0, R.reg("slot0_address"), a[0] << shift), (0, R.reg("slot1_address"), a[1] << shift)]
    if dvi:
        plan.append((int(rng.choice([0, fl // 2, fl])), R.reg("dvimode"), 1))
    elif hdmi and before:       # the mode of the source before
        plan += [(0, R.reg("dvimode"), 1), (fl // 2, R.reg("dvimode"), 0)]
    mid = fl * 2 + fl // 3
    plan += [(mid, R.reg("slot0_status"), 1), (mid, R.reg("slot1_status"), 1)]
    mid2, last = (fl * 6 + fl // 3, 1) if R.nslots == 2 else (mid, R.nslots - 1)
    plan += [(mid2, R.reg("slot%d_address" % last), a[2] << shift), (mid2, R.reg("slot%d_status" % last), 1)]
    t = 5
    for at, adr, dat in plan:
        t = max(t, int(np.searchsorted(np.cumsum(pt), at)))
        while not st[t]:
            t += 1
        m[t, s.inidx["b_we"]], m[t, s.inidx["b_adr"]], m[t, s.inidx["b_dat"]] = 1, adr, dat
        t += 1
    s.reset()
    others, sysm = s._mask_of([x for x in s.domains if x != "sys"]), s._mask_of(["sys"])
    if before:
        # another source was connected before: its own picture size, polarity, phase and skews, then nothing or noise
        _, sy, _ = source(rng, 3, *[int(x) * 2 for x in rng.integers(3, 20, 2)], int(rng.integers(4)), hdmi and bool(rng.integers(2)))
        q = np.zeros((len(sy) + 300, s.nin), dtype=np.int64)
        noise = int(rng.integers(0, 200))
        for i in range(3):
            x = cut(np.roll(sy[:, i], int(rng.integers(0, 7))), int(rng.integers(0, 10)))[:len(sy)]
            x = np.concatenate([x, rng.integers(0, 1024, noise), np.zeros(300 - noise, dtype=np.int64)])
            q[:, s.inidx["raw%d" % i]] = np.concatenate([x, np.zeros(len(q) - len(x), dtype=np.int64)])
        cutoff = int(rng.integers(len(sy) // 2, len(q)))
        s.run(q[:cutoff], masks=np.full(cutoff, others + sysm))
    o = s.run(m, masks=pt * others + st * sysm)
    oi = s.outidx
    # pixels at the end of the symbol side
    po = o[pt.astype(bool)][:, [oi[x] for x in ("de", "hs", "vs", "r", "g", "b")]]
    lag, best = 0, -1
    lo = fl * 2
    for L in range(0, 40):
        k = int((po[lo + L:len(po), 0] == info[lo:len(po) - L, 0]).sum()) - L
        if k > best:
            lag, best = L, k
    pix = np.concatenate([info[lo:len(po) - lag], po[lo + lag:]], 1).tolist()
    # memory
    ok = st.astype(bool)
    ca = o[ok & (m[:, s.inidx["crdy"]] == 1) & (o[:, oi["cv"]] == 1)]
    wd = o[ok & (m[:, s.inidx["wrdy"]] == 1) & (o[:, oi["wv"]] == 1)]
    addrs = [int(x) for x in ca[:, oi["ca"]]]
    words = [[int(x) for x in r] for r in wd[:, [oi["w%d" % i] for i in range(R.k)]]]
    rows = []
    for j, (f, b) in enumerate(((3, a[0]), (4, a[1]), (7 if R.nslots == 2 else 5, a[2]))):
        hi = None if j == 2 else (j + 1) * size
        rows.append([pics[f], b, addrs[j * size:hi], words[j * size:hi]])
    return pix, rows, (int(o[-1, oi["hres"]]), int(o[-1, oi["vres"]]))


def lossy(c, R, w, h, hdmi, frames=16):
    """memory that stops taking words for a while; software that refills slots and looks at the overflow register"""
    rng = c.rng
    info, syms, pics = source(rng, frames, w, h, int(rng.integers(4)), hdmi, island=False)
    n = len(syms)
    fl = n // frames
    raw = [cut(syms[:, i], int(rng.integers(0, 10)))[:n] for i in range(3)]
    size = w * h // R.k
    shift = (R.dw // 8).bit_length() - 1
    s, oi = R.sim, R.sim.outidx
    s.reset()
    allm = s._mask_of(s.domains)
    a = [1000 * (i + 1) for i in range(R.nslots)]
    writes = [(R.reg("frame_size"), size << shift)]
    for i in range(R.nslots):
        writes += [(R.reg("slot%d_address" % i), a[i] << shift), (R.reg("slot%d_status" % i), 1)]
    ovf = R.reg("overflow")
    # the memory stalls between frames 4 and 9
    stall = np.zeros(n, dtype=bool)
    for at in rng.integers(4 * fl, 8 * fl, int(rng.integers(1, 5))):
        stall[at:at + int(rng.choice([fl // 8, fl // 2, fl]))] = True
    clear = 10 * fl
    step, t, ins, outs = 24, 0, [], []
    while t + step <= n:
        m = np.zeros((step, s.nin), dtype=np.int64)
        for i in range(3):
            m[:, s.inidx["raw%d" % i]] = raw[i][t:t + step]
        go = ~stall[t:t + step]
        m[:, s.inidx["crdy"]] = go & (rng.random(step) < .9)
        m[:, s.inidx["wrdy"]] = go & (rng.random(step) < .9)
        m[:, s.inidx["b_adr"]] = ovf
        for j in range(0, step, 2):
            if writes and t > 2 * fl + fl // 3:       # synchronised
                m[j, s.inidx["b_we"]] = 1
                m[j, s.inidx["b_adr"]], m[j, s.inidx["b_dat"]] = writes.pop(0)
        o = s.run(m, masks=np.full(step, allm))
        ins.append(m)
        outs.append(o)
        for i in range(R.nslots):
            if o[-1, oi["st%d" % i]] == 2 and not writes and rng.random() < .7:
                writes += [(R.reg("slot%d_address" % i), a[i] << shift), (R.reg("slot%d_status" % i), 1)]
                break
        if t < clear <= t + step:
            writes.append((ovf, 1))
        t += step
    m, o = np.concatenate(ins), np.concatenate(outs)
    ct = np.flatnonzero((m[:, s.inidx["crdy"]] == 1) & (o[:, oi["cv"]] == 1))
    wt = np.flatnonzero((m[:, s.inidx["wrdy"]] == 1) & (o[:, oi["wv"]] == 1))
    ca = o[ct, oi["ca"]].tolist()
    words = o[wt][:, [oi["w%d" % i] for i in range(R.k)]].tolist()
    # when the register was seen set
    seen = np.concatenate([[False], (m[:-1, s.inidx["b_adr"]] == ovf) & (o[1:, oi["b_r"]] == 1)])
    st = o[:, [oi["st%d" % i] for i in range(R.nslots)]]
    rows = []
    fills = np.flatnonzero((st[1:] == 2).any(1) & (st[:-1] == 1).any(1) & ((st[1:] == 2) & (st[:-1] == 1)).any(1)) + 1
    for j, at in enumerate(fills):
        slot = int(np.flatnonzero((st[at] == 2) & (st[at - 1] == 1))[0])
        lo, hi = j * size, (j + 1) * size
        first = int(ct[lo]) if lo < len(ct) else 0
        rows.append([a[slot], ca[lo:hi], words[lo:hi], int(seen[first:at + 60].any()), int(first > clear + 60)])
    return {"mode": R.mode, "k": R.k, "pics": pics, "least": 2}, rows


def I11(c):
    pixt, frm, res = [], [], []
    cfgs = [("ycbcr422", False, 32, 0, 2, 512), ("rgb", False, 64, 0, 3, 256), ("ycbcr422", True, 64, 0, 4, 512), ("rgb", True, 64, 1, 2, 128)]
    for mode, hdmi, dw, dvi, nslots, depth in cfgs:
        R = Receiver(mode, hdmi, dw, nslots, depth)
        for k in range(16 if c.thorough else 4):
            w, h = (int(c.rng.integers(6, 30)) * 2, int(c.rng.integers(2, 7)) * 2)
            if hdmi and not dvi and k == 0:
                w = 64
            pix, rows, wh = capture(c, R, w, h, int(c.rng.integers(4)), hdmi, dvi, k % 2 == 1)
            pixt.append(({}, pix))
            frm.append(({"mode": mode, "k": R.k}, rows))
            res.append([w, h, wh[0], wh[1]])
    for n, size, frames, depth in ((2, 3, 4, 3), (2, 2, 5, 5)) if c.thorough else ((2, 3, 3, 3),):
        c.mc("losing buffer in front of the slots, any schedule, %d slots of %d words behind %d" % (n, size, depth), "Lossy_MC",
             invs=["Flagged", "Recovers"], constants=dict(Slots=n, Size=size, Frames=frames, Depth=depth), workers=4)
    los = []
    for mode, hdmi, dw, nslots, depth in (("ycbcr422", False, 32, 2, 16), ("rgb", True, 64, 3, 32)) + \
            ((("rgb", False, 128, 2, 64), ("ycbcr422", True, 64, 4, 16)) if c.thorough else ()):
        R = Receiver(mode, hdmi, dw, nslots, depth)
        for k in range(8 if c.thorough else 3):
            los.append(lossy(c, R, int(c.rng.integers(10, 24)) * 2, int(c.rng.integers(4, 8)) * 2, hdmi))
    c.traces("memory that stops: whole frames or an overflow", "Capture", "Los", los,
             cols=["slot address", "addresses", "words", "overflow seen", "after the stalls"], final="LosFinal")
    c.traces("characters to pixels", "Capture", "Pix", pixt, cols=["de", "hs", "vs", "r", "g", "b"] * 2)
    c.func("characters to memory", "Capture", "RcvFrame", frm, cols=["pixels sent", "slot address", "addresses", "words"])
    c.func("resolution registers", "Capture", "ResRow", [({}, res)], cols=["w", "h", "hres", "vres"])


CHECKS = {"I11": I11}
