"""E01: from memory over the link to memory, with every part of the output and the receiver in between."""
import re
import numpy as np
from migen import *
from common import Missing, FastSim, values
from csr import Regs
from vendor import Vendor
from c_out import WireTop


class Input:
    """a whole receiver, observed from its pads to its memory port"""
    def __init__(self, family, mode, dw, hdmi=False, inv=(0, 0, 0), split=False, depth=512):
        from litevideo.input import HDMIIn
        from litedram.common import LiteDRAMNativePort
        from migen.genlib.record import Record
        pads = Record([(n + x, 1) for n in ("data0", "data1", "data2", "clk") for x in ("_p", "_n")])
        for n, v in zip(("data0", "data1", "data2"), inv):
            if v:
                getattr(pads, n + "_p").inverted = True
        p = LiteDRAMNativePort("both", 20, dw)
        d = HDMIIn(pads, p, device="xc" + family, mode=mode, hdmi=hdmi, split_mmcm=split, fifo_depth=depth)
        self.family, self.mode, self.dw, self.hdmi, self.inv = family, mode, dw, hdmi, inv
        regs = Regs(d)
        f = regs.get_fragment()
        V = Vendor(f)
        ins = {"%s%d" % (x, i): getattr(pads, "data%d_%s" % (i, x)) for x in "pn" for i in range(3)}
        ins.update(crdy=p.cmd.ready, wrdy=p.wdata.ready, **regs.ins())
        self.locks = []
        for of in ("MMCME2_ADV", "PLLE2_ADV", "PLL_ADV"):
            for g in V.left.get(of, []):
                self.locks.append("lock%d" % len(self.locks))
                ins[self.locks[-1]] = g["LOCKED"]
        for x, sig in V.loads.items():
            ins["ld_" + x] = sig
        outs = dict(cv=p.cmd.valid, ca=p.cmd.addr, cwe=p.cmd.we, wv=p.wdata.valid, wm=p.wdata.we, hres=d.resdetection._hres.status,
                    vres=d.resdetection._vres.status, locked=d.clocking._locked.status, chan=d.chansync._channels_synced.status)
        for i in range(3):
            outs["char%d" % i] = getattr(d, "data%d_charsync" % i)._char_synced.status
        pw = 32 if mode == "rgb" else 16
        self.k = dw // pw
        for i in range(self.k):
            outs["w%d" % i] = p.wdata.data[pw * (self.k - 1 - i):pw * (self.k - i)]
        self.doms = {"pix": 10, "pix_o": 10, **({"pix2x": 5, "pix10x": 1} if family == "6" else {"pix1p25x": 8, "pix5x": 1})}
        self.sim = FastSim(f, ins, outs, domains=["sys"] + list(self.doms))
        self.addr = regs.finish()

    def reg(self, part):
        m = [a for n, a in self.addr.items() if re.search(r"(^|_)%s\d*$" % part, n)]
        Missing.unless(len(m) == 1, part, self.addr)
        return m[0]

    def run(self, c, bits, size, frame, slots):
        """bits[channel]: as on the cable; frame: bits per frame; returns addresses, words, status"""
        rng, s = c.rng, self.sim
        i, N = s.inidx, bits.shape[1]
        m = np.zeros((N, s.nin), dtype=np.int64)
        for q in range(3):
            b = bits[q] ^ self.inv[q]
            m[:, i["p%d" % q]], m[:, i["n%d" % q]] = b, 1 - b
        on0 = int(rng.integers(200, 500))
        for q, x in enumerate(self.locks):
            m[on0 + 50 * q:, i[x]] = 1
        # generated clocks are in phase with each other every 40 bits
        j = np.arange(N) + int(rng.integers(40))
        masks = np.zeros(N, dtype=np.uint32)
        for d, e in self.doms.items():
            on = j % e == e - 1
            masks[on] |= s._mask_of([d])
            if "ld_" + d in i:
                m[:, i["ld_" + d]] = on
        # system clock, unrelated
        per = rng.choice([6.3, 9.7, 12.9])
        st = np.zeros(N, dtype=bool)
        st[(np.arange(1, int(N / per)) * per).astype(int)] = True
        masks[st] |= s._mask_of(["sys"])
        for x, pr in (("crdy", .8), ("wrdy", .8)):
            v = (rng.random(N) < pr) * 1
            m[:, i[x]] = v
        shift = (self.dw // 8).bit_length() - 1
        p = "pll" if self.family == "6" else "mmcm"
        plan = [(0, p + "_reset", 0), (0, "frame_size", size << shift)]
        plan += [(0, "slot%d_address" % q, a << shift) for q, a in enumerate(slots)]
        if self.hdmi:
            plan.append((0, "dvimode", 1))
        plan += [(frame * 4 + frame // 3, "slot%d_status" % q, 1) for q in range(2)]
        t = 5
        for at, name, v in plan:
            t = max(t, at)
            while not st[t]:
                t += 1
            m[t, i["b_we"]], m[t, i["b_adr"]], m[t, i["b_dat"]] = 1, self.reg(name), v
            t += 1
        s.reset()
        o = s.run(m, masks=masks)
        oi = s.outidx
        ca = o[st & (m[:, i["crdy"]] == 1) & (o[:, oi["cv"]] == 1)]
        wd = o[st & (m[:, i["wrdy"]] == 1) & (o[:, oi["wv"]] == 1)]
        stt = [int(o[-1, oi[x]]) for x in ("hres", "vres", "locked")] + [[int(o[-1, oi["char%d" % q]]) for q in range(3)], int(o[-1, oi["chan"]])]
        return [int(x) for x in ca[:, oi["ca"]]], wd[:, [oi["w%d" % q] for q in range(self.k)]].tolist(), stt


def raster(rng):
    """blanking long enough for the receiver (see I02, I06)"""
    hres = 2 * int(rng.integers(8, 33))
    a = hres + int(rng.integers(2, 12))
    b = a + int(rng.integers(4, 12))
    vres = 2 * int(rng.integers(2, 7))
    v0 = vres + int(rng.integers(1, 3))
    v1 = v0 + int(rng.integers(1, 3))
    return [hres, a, b, b + int(rng.integers(10, 30)), vres, v0, v1, v1 + int(rng.integers(1, 3))]


def loop(c, out, inp, k, frames=8):
    rng = c.rng
    while True:
        p = raster(rng)
        words = p[0] * p[4]
        if words > 140 and words % (2 * inp.k) == 0:
            break
    tick = (p[3] + 1) * (p[7] + 1)
    base = int(rng.integers(0, 1 << 18))
    w = out.record(c, p, base, words, tick * frames + 200)
    bits = ((w[:, :3, None] >> np.arange(10)) & 1).transpose(1, 0, 2).reshape(3, -1)
    for q in range(3):
        bits[q] ^= out.hdr["inv"][q]
    # the cable: a common delay, and up to three characters between channels
    lag = [int(x) for x in rng.integers(0, 31, 3)] if k % 3 else [0, 30, 15]
    bits = np.stack([np.concatenate([rng.integers(0, 2, 7 + lag[q]), bits[q][:bits.shape[1] - 7 - lag[q]]]) for q in range(3)])
    size = words // inp.k
    slots = [int(x) for x in rng.choice(60, 2, replace=False) * 1000 + rng.integers(0, 100, 2)]
    ca, wd, st = inp.run(c, bits, size, tick * 10, slots)
    hdr = dict(out.hdr, p=p + [base, words, 1], imode=inp.mode, k=inp.k)
    return hdr, [[a, ca[q * size:(q + 1) * size if q == 0 else None], wd[q * size:(q + 1) * size if q == 0 else None]] for q, a in enumerate(slots)], st


def E01(c):
    outs, inps = {}, {}
    conf = [(("7", "rgb", (0, 0, 0, 0)), ("7", "ycbcr422", 32, False, (0, 0, 0), False)),
            (("7", "ycbcr422", (1, 0, 1, 0)), ("7", "rgb", 64, False, (0, 1, 1), True)),
            (("6", "rgb", (0, 1, 0, 0)), ("6", "ycbcr422", 64, False, (1, 0, 0), False)),
            (("6", "ycbcr422", (0, 0, 0, 0)), ("7", "ycbcr422", 128, True, (0, 0, 1), False)),
            (("7", "rgb", (0, 0, 0, 1)), ("6", "rgb", 128, True, (0, 0, 0), False))]
    frm, sts = [], []
    for oc, ic in conf:
        out = WireTop(oc[0], "hdmi", oc[1], inv=oc[2])
        inp = Input(*ic)
        for k in range(60 if c.thorough else 8):
            hdr, rows, st = loop(c, out, inp, k)
            frm.append((hdr, rows))
            sts.append((hdr, [st]))
    c.func("memory over the link to memory", "Loop", "Frame", frm, cols=["slot address", "addresses", "words"])
    c.func("receiver status", "Loop", "Status", sts, cols=["hres", "vres", "locked", "character sync", "channel sync"])
    c.assumptions += ["horizontal blanking of at least 16 characters, vertical sync at least 16 characters after the last pixel, skew up to 3 characters"]


CHECKS = {"E01": E01}
