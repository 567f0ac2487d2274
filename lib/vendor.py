"""Behaviour of the FPGA primitives the repository instantiates, at the function their vendor documents, so that a design
can be observed on its pads.  Bit clocks tick ten times per pixel in the simulation (for the double data rate primitives
of the 7 series both edges are ticks).  Clock generators and clock buffers are left alone: domains tick as the harness says.

  v = Vendor(fragment)      replaces the primitives by statements
  v.loads[domain]           input: 1 on the bit ticks that coincide with a tick of the (parallel side) clock domain
  v.left[primitive]         port dictionaries of the primitives left alone
"""
from migen import *
from migen.fhdl.specials import Instance
from migen.fhdl.structure import _Assign, _Operator


def ports(inst):
    return {i.name: i.expr for i in inst.items if isinstance(i, (Instance.Input, Instance.Output))}


def params(inst):
    return {i.name: getattr(i.value, "value", i.value) for i in inst.items if isinstance(i, Instance.Parameter)}


class Vendor:
    def __init__(self, f):
        self.f, self.loads, self.left = f, {}, {}
        self.clk = {cd.clk: cd.name for cd in f.clock_domains}
        self.net = {}

        def scan(st):
            if isinstance(st, _Assign):
                if isinstance(st.l, Signal):
                    self.net[st.l] = st.r
            elif isinstance(st, (list, tuple)):
                for x in st:
                    scan(x)
        scan(f.comb)
        for i in sorted((s for s in f.specials if isinstance(s, Instance)), key=lambda x: x.duid):
            m = getattr(self, "m_" + i.of, None)
            if m is None:
                self.left.setdefault(i.of, []).append(ports(i))
            else:
                self.P, self.A = ports(i), params(i)
                f.specials.discard(i)
                m()

    # -- helpers
    def dom(self, e):
        """clock domain of a clock net"""
        while True:
            if isinstance(e, ClockSignal):
                return e.cd
            if isinstance(e, _Operator) and e.op == "~":
                e = e.operands[0]
            elif isinstance(e, Signal) and e in self.clk:
                return self.clk[e]
            elif isinstance(e, Signal) and e in self.net:
                e = self.net[e]
            else:
                return "unclocked"

    def root(self, e):
        """the undriven net behind a clock net, and whether it is inverted on the way"""
        inv = 0
        while True:
            if isinstance(e, _Operator) and e.op == "~":
                e, inv = e.operands[0], 1 - inv
            elif isinstance(e, Signal) and e in self.net:
                e = self.net[e]
            else:
                return e, inv

    def ld(self, d):
        if d not in self.loads:
            self.loads[d] = Signal(name="ld_" + d)
        return self.loads[d]

    def i(self, n, default=0):
        e = self.P.get(n, default)
        return Constant(int(e)) if isinstance(e, int) else e

    def o(self, n, e):
        if self.P.get(n) is not None:
            self.f.comb += [self.P[n].eq(e)]

    def at(self, d, *st):
        self.f.sync.setdefault(d, []).extend(st)

    # -- buffers
    def m_IBUFDS(self):
        self.o("O", self.i("I"))

    def m_IBUFDS_DIFF_OUT(self):
        self.o("O", self.i("I"))
        self.o("OB", self.i("IB"))

    def m_OBUFDS(self):
        self.o("O", self.i("I"))
        self.o("OB", ~self.i("I"))

    def m_ODDR2(self):
        self.o("Q", Mux(self.i("C0"), self.i("D0"), self.i("D1")))

    def m_BUFPLL(self):
        self.o("SERDESSTROBE", self.ld(self.dom(self.i("GCLK"))))
        self.o("LOCK", self.i("LOCKED"))

    # -- delay lines
    def m_IDELAYE2(self):
        self.o("DATAOUT", self.i("IDATAIN" if self.A.get("DELAY_SRC", "IDATAIN") == "IDATAIN" else "DATAIN"))

    def m_IODELAY2(self):
        self.o("DATAOUT", self.i("IDATAIN"))

    # -- serialisers
    def m_OSERDESE2(self):
        if self.A.get("SERDES_MODE") == "SLAVE":
            self.o("SHIFTOUT1", self.i("D3"))
            self.o("SHIFTOUT2", self.i("D4"))
            return
        n = self.A.get("DATA_WIDTH", 4)
        d = Cat(*[self.i("D%d" % k) for k in range(1, 9)], self.i("SHIFTIN1"), self.i("SHIFTIN2"))
        sr, ph = Signal(n), Signal()
        go = 1 if self.A.get("DATA_RATE_OQ", "DDR") == "DDR" else ph
        ld = self.ld(self.dom(self.i("CLKDIV")))
        self.at(self.dom(self.i("CLK")),
                If(ld, ph.eq(0)).Else(ph.eq(~ph)),
                If(self.i("RST"), sr.eq(0)).Elif(self.i("OCE"), If(ld, sr.eq(d)).Elif(go, sr.eq(sr[1:]))))
        self.o("OQ", sr[0])

    def m_OSERDES2(self):
        # a three-stated pad does not show the data
        on = ~self.i("T1") & ~self.i("T2") & ~self.i("T3") & ~self.i("T4") & 1
        if self.A.get("SERDES_MODE") == "MASTER":
            self.o("SHIFTOUT1", self.i("D1"))
            self.o("OQ", self.i("SHIFTIN3") & on)
            return
        sr = Signal(self.A.get("DATA_WIDTH", 5))
        d = Cat(*[self.i("D%d" % k) for k in range(1, 5)], self.i("SHIFTIN1"))
        self.at(self.dom(self.i("CLK0")), If(self.i("RST"), sr.eq(0)).Elif(self.i("OCE"), If(self.i("IOCE"), sr.eq(d)).Else(sr.eq(sr[1:]))))
        self.o("SHIFTOUT3", sr[0] & on)

    # -- deserialisers
    def m_ISERDESE2(self):
        n = self.A.get("DATA_WIDTH", 4)
        d = self.i("DDLY" if self.A.get("IOBDELAY", "NONE") in ("IFD", "BOTH") else "D")
        sr, q = Signal(n), Signal(n)
        self.at(self.dom(self.i("CLK")), sr.eq(Cat(sr[1:], d)))
        self.at(self.dom(self.i("CLKDIV")), If(self.i("RST"), q.eq(0)).Elif(self.i("CE1", 1), q.eq(sr)))
        for k in range(1, n + 1):
            self.o("Q%d" % k, q[n - k])

    def m_ISERDES2(self):
        sr, q = Signal(4), Signal(4)
        d = self.i("SHIFTIN" if self.A.get("SERDES_MODE") == "SLAVE" else "D")
        self.at(self.dom(self.i("CLK0")), If(self.i("CE0"), sr.eq(Cat(sr[1:], d))))
        self.at(self.dom(self.i("CLKDIV")), If(self.i("RST"), q.eq(0)).Else(q.eq(sr)))
        self.o("SHIFTOUT", sr[0])
        for k in range(1, 5):
            self.o("Q%d" % k, q[k - 1])
