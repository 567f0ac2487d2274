"""I04-I07: sync polarity, resolution, frame extraction, frame DMA."""
import numpy as np
import tlc
from common import FastSim, values, pick
from csr import Regs


def bursts(rng, n, p, mean):
    """0/1 sequence with runs"""
    out = []
    v = 0
    while len(out) < n:
        m = mean * (p if v else 1 - p) * 2
        out += [v] * (1 + int(rng.exponential(max(m, .3))))
        v = 1 - v
    return np.array(out[:n])


# ---------------------------------------------------------------- I04
def polarity(hdmi):
    from litevideo.input.analysis import SyncPolarity
    d = SyncPolarity(hdmi)
    ins = {"v": d.valid_i, "c": d.data_in0.c, "de": d.de_int}
    for i in range(3):
        ins["d%d" % i] = getattr(d, "data_in%d" % i).d
    for i in range(3):
        ins["raw%d" % i] = getattr(d, "data_in%d" % i).raw
    outs = {"v": d.valid_o, "de": d.de, "hs": d.hsync, "vs": d.vsync, "r": d.r, "g": d.g, "b": d.b,
            "c0": d.c0, "c1": d.c1, "c2": d.c2}
    return FastSim(d, ins, outs)


POLCOLS = ["valid", "c", "de", "d0", "d1", "d2", "raw0", "raw1", "raw2", "valid_o", "de_o", "hsync", "vsync", "r", "g", "b",
           "c0", "c1", "c2"]


def I04(c):
    c.mc("polarity specification under any source", "Polarity_MC", invs=["ActiveHigh"], workers=2)
    trs = []
    for hdmi in (False, True):
        s = polarity(hdmi)
        for k in range(48 if c.thorough else 16):
            n = 2500
            de = bursts(c.rng, n, .6, 8)
            m = np.stack([c.rng.random(n) < .9, c.rng.integers(0, 4, n) if k % 2 else np.repeat(c.rng.integers(0, 4, n // 5 + 1), 5)[:n], de]
                         + [values(c.rng, n) for _ in range(3)] + [values(c.rng, n, 10) for _ in range(3)], 1).astype(np.int64)
            s.reset()
            o = s.run(m)
            trs.append(({}, np.concatenate([m, o], 1).tolist()))
    c.traces("sync polarity", "Capture", "Pol", trs, cols=POLCOLS)
    for hdmi in (False, True):
        s = polarity(hdmi)
        letters = np.array([[v, code, de, 3, 5, 9, 17, 33, 65] for v in (0, 1) for code in range(4) for de in (0, 1)]
                           + [[1, 2, 1, 200, 129, 66, 512, 257, 1000]])
        c.lts("sync polarity%s, every sequence" % (" (hdmi)" if hdmi else ""), "Capture", "Pol", {}, s, letters)
    # the guarantee on whole frames: syncs come out active high for both source polarities
    trs = []
    s = polarity(False)
    for pol in range(4):
        rows = []
        for f in range(4):
            rows += frame_codes(c.rng, 24, 10, 4, 3, 5, pol)
        rows = np.array(rows)
        n = len(rows)
        m = np.zeros((n, s.nin), dtype=np.int64)
        m[:, 0] = 1
        m[:, 1] = rows[:, 0]
        m[:, 2] = rows[:, 1]
        s.reset()
        o = s.run(m)
        oi = s.outidx
        want = np.concatenate([[[0, 0, 0]], rows[:-1, 1:4]])
        trs.append(({"start": 24 * 5 * 2}, np.stack([want[:, 0], want[:, 1], want[:, 2], o[:, oi["de"]], o[:, oi["hs"]], o[:, oi["vs"]]], 1).tolist()))
    c.traces("frames in all four source polarities", "Capture", "PolF", trs, cols=["de", "hs", "vs", "de_o", "hsync", "vsync"])


def frame_codes(rng, w, h, fp, sw, bp, pol):
    """(control code, de, hs, vs) for one frame; pol = idle levels"""
    out = []
    for y in range(h + 3):
        for x in range(w + fp + sw + bp):
            de = int(x < w and y < h)
            hs = int(w + fp <= x < w + fp + sw)
            vs = int(y == h + 1)
            if de:
                code = 0
            else:
                code = (hs | vs << 1) ^ pol
            out.append((code, de, hs, vs))
    return out


# ---------------------------------------------------------------- I05
def resolution(nbits):
    from litevideo.input.analysis import ResolutionDetection
    d = ResolutionDetection(nbits)
    return FastSim(d, {"v": d.valid_i, "de": d.de, "vs": d.vsync}, {"h": d._hres.status, "vr": d._vres.status},
                   domains=["pix", "sys"])


def I05(c):
    trs, tr2 = [], []
    for k in range(60 if c.thorough else 20):
        nb = (11, 4, 3, 11, 6)[k % 5]
        s = resolution(nb)
        n = 5000
        m = np.stack([c.rng.random(n) < (1 if k % 2 else .97), bursts(c.rng, n, .6, 10), bursts(c.rng, n, .2, 30)], 1).astype(np.int64)
        pt = c.rng.random(n) < (1, .6, .9)[k % 3]
        st = c.rng.random(n) < (1, 1, .5)[k % 3]
        masks = pt * s._mask_of(["pix"]) + st * s._mask_of(["sys"])
        s.reset()
        o = s.run(m, masks=masks)
        trs.append(({"nbits": nb}, np.concatenate([pt[:, None] * 1, st[:, None] * 1, m, o], 1).tolist()))
    cols = ["pix", "sys", "valid", "de", "vsync", "hres", "vres"]
    # complete frames: the registers show the picture size
    for w, h in ((64, 9), (1, 1), (40, 30), (255, 6)) + (((1920, 60), (2047, 5), (16, 2047)) if c.thorough else ((2047, 3), (2, 1100))):
        s = resolution(11)
        rows = []
        for f in range(3):
            for y in range(h + 3):
                line = np.zeros((w + 8, 3), dtype=np.int64)
                line[:, 0] = 1
                line[:w, 1] = y < h
                line[:, 2] = y == h + 1
                rows.append(line)
        m = np.concatenate(rows)
        s.reset()
        o = s.run(m)
        full = np.concatenate([np.ones((len(m), 2), dtype=np.int64), m, o], 1)
        trs.append(({"nbits": 11}, full.tolist()))
        settle = (w + 8) * (h + 3) + (w + 8) * (h + 1) + 4
        tr2.append(({"w": w, "h": h, "settle": settle}, full[settle:].tolist()))
    c.traces("resolution", "Capture", "Res", trs, cols=cols)
    c.traces("resolution of complete frames", "Capture", "ResF", tr2, cols=cols)
    s = resolution(2)
    letters = np.array([[v, de, vs] for v in (0, 1) for de in (0, 1) for vs in (0, 1)])
    full = np.concatenate([np.ones((8, 2), dtype=np.int64), letters], 1)
    c.lts("resolution, every sequence with 2-bit counters", "Capture", "Res", {"nbits": 2}, s, letters, row_ins=full, limit=500000)


# ---------------------------------------------------------------- I06
def frame_extraction(mode, ww, depth):
    from litevideo.input.analysis import FrameExtraction
    d = FrameExtraction(ww, depth, mode)
    pw = 32 if mode == "rgb" else 16
    k = ww // pw
    ins = {"v": d.valid_i, "de": d.de, "vs": d.vsync, "r": d.r, "g": d.g, "b": d.b, "ready": d.frame.ready, "clear": d._overflow.re}
    outs = {"valid": d.frame.valid, "sof": d.frame.sof, "ovf": d._overflow.w}
    for i in range(k):
        outs["p%d" % i] = d.frame.pixels[pw * (k - 1 - i):pw * (k - i)]
    return FastSim(d, ins, outs, domains=["pix", "sys"]), k


def video(rng, n, mode, w=None, tail=40):
    """valid, de, vsync, r, g, b per pixel clock: frames of random size, some of them cut short"""
    rows = []
    gap = 22 if mode != "rgb" else 0
    while len(rows) < n:
        h, ww = (int(rng.integers(1, 5)), int(rng.integers(1, 30))) if w is None else w
        if mode != "rgb" and rng.random() < .7:
            ww += ww & 1
        cut = w is None and rng.random() < .3
        for y in range(h):
            lw = int(rng.integers(1, ww + 1)) if cut and y == h - 1 else ww
            # a source that is away from well before to well after a line
            away = mode != "rgb" and y and y < h - 1 and w is None and rng.random() < .3
            if away:
                rows += [[0, int(0 <= x < lw), 0] + list(values(rng, 3)) for x in range(-3, lw + 3)]
                rows += [[1, 0, 0] + list(values(rng, 3)) for x in range(gap)]
                continue
            for x in range(lw):
                ok = 1 if mode != "rgb" or rng.random() < .95 else 0
                rows.append([ok, 1, 0] + list(values(rng, 3)))
            for x in range(gap + int(rng.integers(gap > 0 or y < h - 1, 12 if rng.random() < .7 else 2))):
                rows.append([1, 0, 0] + list(values(rng, 3)))
        for x in range(int(rng.integers(1, 6)) + gap):
            rows.append([1, 0, 1] + list(values(rng, 3)))
        for x in range(int(rng.integers(0, 6)) + gap):
            rows.append([1, 0, 0] + list(values(rng, 3)))
    rows = rows[:n - tail]
    rows += [[1, 0, 0, 0, 0, 0]] * (n - len(rows))
    return np.array(rows, dtype=np.int64)


def I06(c):
    trs = []
    combos = [("rgb", 64), ("rgb", 128), ("ycbcr422", 32), ("ycbcr422", 64), ("ycbcr422", 128)]
    for ci, (mode, ww) in enumerate(combos):
        for k in range(24 if c.thorough else 10):
            # also many tiny frames, and lines of real length
            size = {3: (2, 1), 5: (1920 if c.thorough or ci % 2 else 720, 5), 7: (3 + ci, 1)}.get(k)
            depth = (4, 8, 16, 4)[(k + ci) % 4] if k else 64
            s, kk = frame_extraction(mode, ww, depth)
            n = 2500 if k != 5 else 14000 if mode == "rgb" else 12000
            pp = (1, .5, .8)[k % 3] if k else .7
            sp = (1, .7, 1)[(k + ci) % 3]
            pt = c.rng.random(4 * n) < pp
            st = c.rng.random(4 * n) < sp
            npix = int(pt[:n].sum())
            px = video(c.rng, npix, mode, size)
            # inputs change on pixel ticks only
            idx = np.clip(np.cumsum(pt[:n]) - pt[:n], 0, npix - 1)
            m = np.zeros((n, s.nin), dtype=np.int64)
            m[:, :6] = px[idx]
            rd = np.repeat(c.rng.random(n // 50 + 1) < (1, .5, .75)[k % 3] if k else np.ones(n // 50 + 1), 50)[:n]
            m[:, s.inidx["ready"]] = rd.astype(int) * (c.rng.random(n) < (.9 if k else 1))
            m[-200:, s.inidx["ready"]] = 1
            m[:, s.inidx["clear"]] = c.rng.random(n) < (.01 if k else 0)
            # some twice or three times in close succession
            for t in np.flatnonzero(m[:-40, s.inidx["clear"]]):
                if c.rng.random() < .3:
                    m[t + c.rng.integers(1, 14, int(c.rng.integers(1, 3))), s.inidx["clear"]] = 1
            masks = pt[:n] * s._mask_of(["pix"]) + st[:n] * s._mask_of(["sys"])
            s.reset()
            o = s.run(m, masks=masks)
            oi = s.outidx
            rows = []
            P = [oi["p%d" % i] for i in range(kk)]
            for t in range(n):
                rows.append([int(pt[t]), int(st[t])] + m[t, :6].tolist() + [int(o[t, oi["valid"]]), int(m[t, s.inidx["ready"]]),
                            int(o[t, oi["sof"]]), [int(x) for x in o[t, P]], int(o[t, oi["ovf"]]), int(m[t, s.inidx["clear"]])])
            trs.append(({"mode": mode, "k": kk, "depth": depth, "plat": 1 if mode == "rgb" else 12}, rows))
    c.traces("frame extraction", "Capture", "Frm", trs, final="FrmFinal",
             cols=["pix", "sys", "valid", "de", "vsync", "r", "g", "b", "ovalid", "oready", "osof", "oword", "overflow", "clear"])


# ---------------------------------------------------------------- I07
class DmaSim:
    def __init__(self, nslots, aw, dw):
        from litevideo.input.dma import DMA
        from litedram.common import LiteDRAMNativePort
        self.port = LiteDRAMNativePort("both", aw, dw)
        self.d = DMA(self.port, nslots)
        self.csrs = {x.name: x for x in self.d.get_csrs()}
        self.regs = Regs(self.d, list(self.csrs.values()))
        p, d = self.port, self.d
        ins = {"fv": d.frame.valid, "fsof": d.frame.sof, "crdy": p.cmd.ready, "wrdy": p.wdata.ready, **self.regs.ins()}
        self.nw = dw // 16
        for i in range(self.nw):
            s = d.frame.pixels[16 * i:16 * i + 16]
        ins["pix"] = d.frame.pixels
        outs = {"frdy": d.frame.ready, "cv": p.cmd.valid, "ca": p.cmd.addr, "cwe": p.cmd.we, "wv": p.wdata.valid,
                "wm": p.wdata.we, "irq": d.ev.irq}
        for i in range(self.nw):
            outs["w%d" % i] = p.wdata.data[16 * i:16 * i + 16]
        self.shift = (dw // 8).bit_length() - 1
        for i in range(nslots):
            outs["st%d" % i] = pick(self.csrs, "slot%d_status" % i).storage
            outs["ad%d" % i] = pick(self.csrs, "slot%d_address" % i).storage
        self.sim = FastSim(self.regs, ins, outs)
        self.addr = self.regs.finish()
        self.n, self.aw, self.dw = nslots, aw, dw


def dma_run(c, h, n, size, prof):
    """one random history: frames in, software loading slots, memory with stalls"""
    s = h.sim
    s.reset()
    rng = c.rng
    rows = []
    nin = s.inidx
    # frame words: list of (sof, word); pixels below 2^63
    def word():
        return [int(x) for x in rng.integers(0, 65536, h.nw)]
    pend = None
    inframe = 0
    fsize = 0
    cursz = size
    writes = [(3, 0, size)] + ([(4, 0, int(rng.integers(0, 1 << h.n)))] if prof % 2 else [(4, 0, (1 << h.n) - 1)])
    for i in range(h.n):
        writes.append((2, i, int(rng.integers(0, (1 << h.aw) - size - 1))))
        if rng.random() < .6:
            writes.append((1, i, 1))
    pf, pc, pw = [(1, 1, 1), (.9, .5, .5), (.5, 1, .3), (1, .3, 1), (.7, .9, .9)][prof % 5]
    st = [0] * h.n
    cstall = wstall = 0
    gaplen = 0
    wait = [0] * h.n
    urgent = []         # software changing its mind about loaded slots between two frames
    before = [0] * h.n
    for t in range(n):
        # source
        if pend is None and gaplen == 0 and rng.random() < pf:
            if inframe == 0:
                pend = (1, word())
                # usually exact frames, sometimes longer, sometimes junk without start
                inframe = cursz - 1 if rng.random() < .7 else cursz + int(rng.integers(0, 4))
            else:
                pend = (0, word())
                inframe -= 1
        elif gaplen and not urgent:
            gaplen -= 1
        cstall = cstall - 1 if cstall else (int(rng.integers(1, 40)) if rng.random() < .01 else 0)
        wstall = wstall - 1 if wstall else (int(rng.integers(1, 60)) if rng.random() < .01 else 0)
        iv = {"fv": int(pend is not None), "fsof": pend[0] if pend else int(rng.integers(2)),
              "crdy": int(rng.random() < pc and not cstall), "wrdy": int(rng.random() < pw and not wstall)}
        wd = pend[1] if pend else word()
        iv["pix"] = sum(x << (16 * i) for i, x in enumerate(wd))
        wr = (0, 0, 0)
        if (urgent or writes) and rng.random() < .5:
            wr = (urgent or writes).pop(0)
        iv["b_we"] = int(wr[0] != 0)
        if wr[0]:
            name = {1: "slot%d_status" % wr[1], 2: "slot%d_address" % wr[1], 3: "frame_size", 4: "ev_enable"}[wr[0]]
            iv["b_adr"] = pick(h.addr, name)
            # bytes; what is less than a word does not count
            low = int(rng.integers(0, 1 << h.shift)) if prof % 3 == 1 else 0
            iv["b_dat"] = (wr[2] << h.shift) + low if wr[0] in (2, 3) else wr[2]
        o = s.cycle(**iv)
        rows.append([iv["fv"], iv["fsof"], wd, o["frdy"], o["cv"], iv["crdy"], o["ca"], o["cwe"], o["wv"], iv["wrdy"],
                     [o["w%d" % i] for i in range(h.nw)], o["wm"], wr[0], wr[1] + 1, wr[2]]
                    + [o["st%d" % i] for i in range(h.n)] + [o["ad%d" % i] >> h.shift for i in range(h.n)] + [o["irq"]])
        if iv["fv"] and o["frdy"]:
            pend = None
            if inframe == 0 and rng.random() < .4:
                gaplen = int(rng.integers(0, 30))
        now = [o["st%d" % i] for i in range(h.n)]
        if 1 in now and any(a == 1 and b == 2 for a, b in zip(before, now)) and not (pend and pend[0]) and rng.random() < .3:
            i = int(rng.choice([k for k in range(h.n) if now[k] == 1]))
            if not any(w[1] == i for w in writes):
                new = (2, i, int(rng.integers(0, (1 << h.aw) - size - 1)))
                urgent += [[(1, i, 0)], [new], [(1, i, 0), new, (1, i, 1)]][int(rng.integers(3))]
                gaplen = 4
        before = now
        # software: give filled slots back after a while
        for i in range(h.n):
            if o["st%d" % i] == 2 and not any(w[1] == i for w in writes) and not (wr[0] in (1, 2) and wr[1] == i):
                wait[i] = wait[i] + 1
                if rng.random() < (.2, .05, .01)[prof % 3]:
                    if rng.random() < .3:
                        writes.append((1, i, 0))
                    if rng.random() < .25:
                        cursz = int(rng.integers(1, size + 1))
                        writes.append((3, 0, cursz))
                    if rng.random() < .8:
                        writes.append((2, i, int(rng.integers(0, (1 << h.aw) - size - 1))))
                    writes.append((1, i, 1))
            elif o["st%d" % i] == 0 and not any(w[1] == i for w in writes) and wr[0] == 0 and rng.random() < .02:
                writes.append((1, i, 1))
    return ({"n": h.n, "mask": (1 << (h.dw // 8)) - 1, "span": 1 << h.aw}, rows)


def I07(c):
    for n, size, frames in ((2, 3, 4), (1, 4, 5)) if c.thorough else ((2, 2, 3),):
        c.mc("slot specification under any software and memory, %d slots of %d words" % (n, size), "Slots_MC",
             invs=["Whole"], props=["Inside"], constants=dict(Slots=n, Size=size, Frames=frames), workers=4)
    trs = []
    by = {}
    for k in range(160 if c.thorough else 60):
        n, aw, dw = ((2, 12, 32), (3, 10, 16), (2, 12, 16), (4, 14, 32), (2, 20, 32), (5, 12, 64), (6, 14, 32))[k % 7]
        if (n, aw, dw) not in by:
            by[n, aw, dw] = DmaSim(n, aw, dw)
        trs.append(dma_run(c, by[n, aw, dw], 2500, (5, 1, 17, 40, 3, 100)[k % 6], k))
    c.traces("frame DMA", "Capture", "Dma", trs)
    # frames of real size
    rows = []
    h = DmaSim(2, 24, 32)
    for k, size in enumerate((66000, 259200, (1 << 20) + 3, (1 << 23) + 77) if c.thorough else (66000, 1920 * 1080 // 2 + 11)):
        rows += dma_big(c, h, size, k)
    c.func("frame DMA, whole frames", "Capture", "BigFrame", [({"span": 1 << h.aw}, rows)],
           cols=["address", "size", "first value", "written runs", "slot status", "slot address"])


def dma_big(c, h, size, k):
    s = h.sim
    s.reset()
    ad = [int(c.rng.integers(0, 1 << h.aw)) if k % 2 else (1 << h.aw) - size // 2, int(c.rng.integers(0, 1 << h.aw))]
    for name, v in (("frame_size", size << h.shift), ("slot0_address", ad[0] << h.shift), ("slot1_address", ad[1] << h.shift),
                    ("slot0_status", 1), ("slot1_status", 1)):
        s.cycle(b_we=1, b_adr=pick(h.addr, name), b_dat=v)
    s.cycle(b_we=0)
    out = []
    for slot in range(2):
        n = int(size * 1.6) + 200
        I = s.inidx
        m = np.zeros((n, s.nin), dtype=np.int64)
        m[:, I["fv"]] = c.rng.random(n) < .98
        m[:, I["crdy"]] = c.rng.random(n) < .95
        m[:, I["wrdy"]] = np.repeat(c.rng.random(n // 16 + 1) < .97, 16)[:n]
        m[:, I["fsof"]] = 1
        st = s.state()
        # the first pass finds when words are taken, the second has the source change its word exactly then
        v0 = int(c.rng.integers(1, 1 << 20))
        o = s.run(m)
        sofs = np.flatnonzero((m[:, I["fv"]] == 1) & (o[:, s.outidx["frdy"]] == 1))
        took = np.zeros(n, dtype=np.int64)
        took[sofs] = 1
        nth = np.cumsum(took) - took
        m[:, I["pix"]] = v0 + nth
        m[:, I["fsof"]] = nth == 0
        if len(sofs) > size:
            m[sofs[size]:, I["fv"]] = 0
        s.load(st)
        o = s.run(m)
        O = s.outidx
        ca = o[(o[:, O["cv"]] == 1) & (m[:, I["crdy"]] == 1), O["ca"]]
        ws = (o[:, O["wv"]] == 1) & (m[:, I["wrdy"]] == 1)
        w = o[ws, O["w0"]] + (o[ws, O["w1"]] << 16)
        q = min(len(ca), len(w))
        d = np.flatnonzero((np.diff(ca[:q]) != 1) | (np.diff(w[:q]) != 1)) + 1
        cuts = [0] + d.tolist() + [q]
        runs = [[int(ca[x]), y - x, int(w[x])] for x, y in zip(cuts[:-1], cuts[1:]) if y > x][:50]
        if len(ca) != len(w):
            runs.append([-1, abs(len(ca) - len(w)), -1])
        out.append([ad[slot], size, v0, runs, int(o[-1, O["st%d" % slot]]), int(o[-1, O["ad%d" % slot]]) >> h.shift])
    return out


CHECKS = {f.__name__: f for f in (I04, I05, I06, I07)}
