"""I08: display data channel (EDID over I2C)."""
import inspect
import numpy as np
from migen import *
from migen.fhdl.bitcontainer import value_bits_sign
from common import Missing, FastSim, values
from csr import Regs


class _Pads:
    pass


def whole_receiver(p, default):
    """the channel as part of a receiver, its clocking and deserialisers left out"""
    import litevideo.input as inp

    class Clk(Module):
        def __init__(self, pads, *a, **k):
            pass

    class Cap(Module):
        def __init__(self, *a, **k):
            self.d = Signal(10)
    for i in range(3):
        setattr(p, "data%d_p" % i, Signal())
        setattr(p, "data%d_n" % i, Signal())
    save = dict(inp.clocking_cls), dict(inp.datacapture_cls)
    try:
        inp.clocking_cls["xc7"], inp.datacapture_cls["xc7"] = Clk, Cap
        return inp.HDMIIn(p, device="xc7", default_edid=default)
    finally:
        inp.clocking_cls.update(save[0])
        inp.datacapture_cls.update(save[1])


class Rig:
    """the EDID module with an open-drain wire: SDA = master AND not slave pull"""
    def __init__(self, kind, default=None):
        from litevideo.input.edid import EDID
        p = _Pads()
        p.scl, p.sda = Signal(), Signal()
        self.hpd = kind != "bare"
        if kind != "tristate":
            p.sda_pu, p.sda_pd = Signal(), Signal()
        if self.hpd:
            p.hpd_notif, p.hpd_en = Signal(), Signal()
        if kind == "inverted":
            p.scl.inverted = p.sda.inverted = p.hpd_notif.inverted = True
        self.kind = kind
        if kind == "receiver":
            dut = whole_receiver(p, default)
            edid = dut.edid
        else:
            dut = edid = EDID(p, *([default] if default is not None else []))
        regs = Regs(dut)
        self.mem = list(list(inspect.signature(EDID.__init__).parameters.values())[2].default) if default is None else default
        self.size = len(self.mem)
        inv = kind == "inverted"
        scl, m, pin = Signal(reset=1), Signal(reset=1), Signal()
        regs.comb += p.scl.eq(~scl if inv else scl)
        ins = {"scl": scl, "m": m, "pin": pin, **regs.ins()}
        if self.hpd:
            regs.comb += p.hpd_notif.eq(~pin if inv else pin)
        outs = {"notif": edid._hpd_notif.status}
        if self.hpd:
            outs["hpd"] = p.hpd_en
        if kind == "tristate":
            # the tristate is a black box: its output enable goes back to the wire through the harness
            self.closed = False
            sim = FastSim.__new__(FastSim)
            frag = regs.get_fragment()
            from migen.fhdl.specials import Tristate
            ts = [s for s in frag.specials if isinstance(s, Tristate)]
            assert len(ts) == 1
            t = ts[0]
            frag.specials.discard(t)
            frag.comb.append(t.i.eq(m & ~(t.oe & ~t.o)))
            outs["pull"] = t.oe & ~t.o
            outs["strong"] = t.oe & t.o
            self.sim = FastSim(frag, ins, outs)
        else:
            w = m & ~p.sda_pd
            regs.comb += p.sda.eq(~w if inv else w)
            outs["pull"] = p.sda_pd
            outs["strong"] = p.sda_pu
            self.sim = FastSim(regs, ins, outs)
        self.addr = regs.finish()
        self.reset()

    def reset(self):
        self.sim.reset()
        self.v = {"scl": 1, "m": 1, "pin": 0}
        self.rows = []
        self.strong = 0
        self.hold(50)

    def hold(self, n, **kw):
        s = self.sim
        self.v.update(kw)
        m = np.zeros((n, s.nin), dtype=np.int64)
        for k, x in self.v.items():
            m[:, s.inidx[k]] = x
        o = s.run(m)
        self.strong |= int(o[:, s.outidx["strong"]].max())
        self.last = o
        return o[:, s.outidx["pull"]]

    def row(self, kind, v, d1, d2):
        s = self.sim
        o = self.last[-1]
        hp = int(o[s.outidx["hpd"]]) if self.hpd else 0
        n = int(o[s.outidx["notif"]])
        self.rows.append([kind, v, int(d1), int(d2), hp, n, self.v["pin"] if self.hpd else 1])

    def write_en(self, v):
        s = self.sim
        names = [k for k in self.addr if "hpd_en" in k]
        Missing.unless(len(names) == 1, "hpd_en", self.addr)
        name, = names
        s.cycle(**self.v, b_adr=self.addr[name], b_we=1, b_dat=v)
        s.cycle(**self.v, b_we=0, b_adr=0, b_dat=0)

    # -- bus
    def start(self, rng):
        """START or repeated START; from SCL high idle or SCL low"""
        if self.v["scl"] == 0:
            self.hold(int(rng.integers(10, 150)))
            self.hold(int(rng.integers(80, 300)), m=1)
            self.hold(int(rng.integers(90, 300)), scl=1)
        d1 = self.hold(int(rng.integers(90, 300)))[-1]
        self.hold(int(rng.integers(90, 300)), m=0)
        self.hold(int(rng.integers(80, 200)), scl=0)
        self.row(1, 0, d1, self.hold(1)[-1])

    def stop(self, rng):
        if self.v["scl"] == 0:
            self.hold(int(rng.integers(10, 150)))
            self.hold(int(rng.integers(80, 300)), m=0)
            self.hold(int(rng.integers(90, 300)), scl=1)
        d1 = self.hold(1)[-1]
        self.hold(int(rng.integers(90, 300)), m=1)
        self.row(2, 0, d1, self.hold(1)[-1])

    def bit(self, rng, v):
        """one clock pulse; -> level on the wire"""
        assert self.v["scl"] == 0
        self.hold(int(rng.integers(3, 140)))
        self.hold(int(rng.integers(75, 300)), m=v)
        h = self.hold(int(rng.integers(90, 350)), scl=1)
        glitch = len(set(h.tolist())) > 1
        self.row(3, v, h[0], h[-1] if h[0] != h[-1] or not glitch else 1 - h[-1])
        self.hold(int(rng.integers(75, 150)), scl=0)
        return v & (1 - int(h[-1]))

    def byte(self, rng, v):
        for i in range(8):
            self.bit(rng, v >> (7 - i) & 1)
        return self.bit(rng, 1)

    def read(self, rng, ack):
        v = 0
        for i in range(8):
            v = v * 2 + self.bit(rng, 1)
        self.bit(rng, 0 if ack else 1)
        return v

    def enable(self, rng, v):
        self.write_en(v)
        d = self.hold(int(rng.integers(5, 200)))
        # released for good within a few clocks
        self.row(4, v, 0, max(d[4:]) if v == 0 else d[-1])

    def pinset(self, rng, v):
        self.v["pin"] = v
        d = self.hold(int(rng.integers(6, 100)))
        self.row(5, 0, 0, d[-1])

    def mid_bit_pull(self):
        """does the slave pull before the next clock pulse?"""
        return int(self.hold(80)[-1])


def session(rng, g, n):
    """random traffic"""
    g.reset()
    if g.hpd:
        if rng.random() < .3:      # silent before hot plug is enabled
            g.start(rng)
            g.byte(rng, 0xA0)
            g.stop(rng)
        g.enable(rng, 1)
    while len(g.rows) < n:
        k = rng.integers(0, 13)
        g.start(rng)
        if k <= 3:      # read from an offset
            g.byte(rng, 0xA0)
            g.byte(rng, int(rng.integers(0, 256)) if k else int(rng.choice([255, 254, 127, 126, 0])))
            if k == 3:
                g.stop(rng)
            g.start(rng)
            g.byte(rng, 0xA1)
            m = int(rng.integers(1, 6))
            for i in range(m):
                g.read(rng, i < m - 1)
        elif k == 4:    # current address
            g.byte(rng, 0xA1)
            m = int(rng.integers(1, 4))
            for i in range(m):
                g.read(rng, i < m - 1)
        elif k <= 6:    # another device
            g.byte(rng, int(rng.integers(0, 256)))
            if g.rows[-1][2] == 0:
                for i in range(int(rng.integers(0, 12))):
                    g.bit(rng, int(rng.integers(2)))
            elif g.rows[-2][1] == 1:        # its read address after all
                g.read(rng, 0)
            elif rng.random() < .5:
                g.byte(rng, int(rng.integers(0, 256)))
        elif k == 7:    # neighbours of the address
            g.byte(rng, int(rng.choice([0xA2, 0xA3, 0x20, 0x21, 0xB0, 0xE0, 0x50, 0xA4, 0xA8, 0x9F])))
        elif k == 8:    # address given up half way
            for i in range(int(rng.integers(1, 8))):
                g.bit(rng, int(rng.integers(2)))
        elif k == 9:    # offset given up half way
            g.byte(rng, 0xA0)
            for i in range(int(rng.integers(0, 6))):
                g.bit(rng, int(rng.integers(2)))
        elif k == 10:   # read given up half way, where the slave lets the master do so
            g.byte(rng, 0xA1)
            nb = int(rng.integers(0, 8))
            for i in range(nb):
                g.bit(rng, 1)
            for i in range(64):
                # never between a byte and its acknowledge: whether that byte counts as read is not specified
                if not g.mid_bit_pull() and nb % 9 != 8:
                    break
                g.bit(rng, 1)
                nb += 1
        elif k == 11 and g.hpd:  # hot plug switched off somewhere
            g.byte(rng, int(rng.choice([0xA0, 0xA1])))
            nb = int(rng.integers(0, 14))
            for i in range(nb + (nb % 9 == 8)):
                g.bit(rng, 1)
            g.enable(rng, 0)
            if rng.random() < .5:
                for i in range(int(rng.integers(0, 9))):
                    g.bit(rng, int(rng.integers(2)))
                if rng.random() < .5:
                    g.stop(rng)
                    g.start(rng)
                    g.byte(rng, 0xA1)
            g.enable(rng, 1)
            for i in range(int(rng.integers(0, 12))):
                g.bit(rng, int(rng.integers(2)))
        elif k == 12:   # more bytes written than the offset, looking like its address or not
            g.byte(rng, 0xA0)
            g.byte(rng, int(rng.integers(0, 256)))
            for i in range(int(rng.integers(1, 4))):
                g.byte(rng, int(rng.choice([0xA0, 0xA1, 0xA0, 0xA1, int(rng.integers(0, 256))])))
        if g.hpd and rng.random() < .3:
            g.pinset(rng, int(rng.integers(2)))
        if rng.random() < .6:
            g.stop(rng)
    return g.rows


COLS = ["kind", "v", "pull_begin", "pull_end", "hpd_en_pin", "hpd_notif_status", "hpd_notif_pin"]


def hdr(g):
    return {"size": g.size, "mem": [int(x) for x in g.mem], "gated": int(g.hpd)}


def I08(c):
    mem = [int(x) for x in c.rng.integers(0, 256, 128)]
    c.mc("channel specification under any master", "EDID_MC", invs=["Inv"], workers=4)
    trs = []
    rigs = [Rig("pads"), Rig("tristate"), Rig("inverted"), Rig("bare", mem), Rig("receiver", mem[64:] + mem[:64]), Rig("pads", mem + mem[::-1])]
    for g in rigs:
        for k in range(10 if c.thorough else 3):
            trs.append((hdr(g), session(c.rng, g, 900)))
            c.need(not g.strong, "sda never driven high", "sda_driven_high", {"rig": g.kind})
    # every address byte
    g = rigs[0]
    rows = []
    g.reset()
    g.enable(c.rng, 1)
    for a in range(256):
        g.start(c.rng)
        g.byte(c.rng, a)
        if a == 0xA1:
            g.read(c.rng, 0)
        g.stop(c.rng)
    trs.append((hdr(g), g.rows))
    # the whole memory in one sequential read, wrapping
    full = []
    for g in rigs[:1] + rigs[3:4]:
        g.reset()
        if g.hpd:
            g.enable(c.rng, 1)
        tr = []
        o = int(c.rng.integers(0, 256))
        for o, m in ((o, g.size + 5), (-1, 9), (g.size - 2, 4)):
            if o >= 0:
                g.start(c.rng)
                g.byte(c.rng, 0xA0)
                g.byte(c.rng, o)
            g.start(c.rng)
            g.byte(c.rng, 0xA1)
            bs = [g.read(c.rng, i < m - 1) for i in range(m)]
            g.stop(c.rng)
            tr.append([o, m, bs])
        full.append((hdr(g), tr))
        trs.append((hdr(g), g.rows))
        if g.kind == "pads":
            o, m, bs = tr[0]
            rot = [bs[(i - o) % g.size] for i in range(g.size)]
            c.func("built-in description", "EDID", "EdiBlock",
                   [({"blocks": g.size // 128}, [[b, rot[128 * b:128 * b + 128]] for b in range(g.size // 128)])], cols=["block", "bytes"])
    # every offset
    g = rigs[0]
    g.reset()
    g.enable(c.rng, 1)
    tr = []
    for o in range(256):
        g.start(c.rng)
        g.byte(c.rng, 0xA0)
        g.byte(c.rng, o)
        g.start(c.rng)
        g.byte(c.rng, 0xA1)
        tr.append([o, 1, [g.read(c.rng, 0)]])
        g.stop(c.rng)
    full.append((hdr(g), tr))
    trs.append((hdr(g), g.rows))
    c.traces("display data channel", "EDID", "Edi", trs, cols=COLS)
    c.traces("transfers", "EDID", "EdiT", full, cols=["offset", "count", "bytes"])


CHECKS = {"I08": I08}
