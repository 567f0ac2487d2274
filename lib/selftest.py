"""Development aid: the FHDL-to-C simulator against migen's own, on modules of the repository with random inputs.
usage: PYTHONPATH=lib:/repo python selftest.py"""
import random, sys
import numpy as np
from migen import *
from migen.genlib.record import Record
from common import FastSim


def sigs(x, out=None):
    out = [] if out is None else out
    if isinstance(x, Record):
        for n, *_ in x.layout:
            sigs(getattr(x, n), out)
    elif isinstance(x, Signal):
        out.append(x)
    return out


def compare(name, make, ports, n=400, clocks=("sys",)):
    """ports(d) -> (inputs, outputs) lists of signals"""
    rng = random.Random(name)
    d = make()
    I, O = ports(d)
    seq = [[rng.getrandbits(len(s)) if rng.random() < .9 or t == 0 else None for s in I] for t in range(n)]
    for t in range(1, n):
        seq[t] = [a if b is None else b for a, b in zip(seq[t - 1], seq[t])]
    got = []

    def gen():
        for row in seq:
            for s, v in zip(I, row):
                yield s.eq(v)
            yield
            r = []
            for s in O:
                r.append((yield s))
            got.append([int(x) & ((1 << len(s)) - 1) for x, s in zip(r, O)])
    run_simulation(d, {clocks[0]: gen()}, clocks={c: 10 for c in clocks})
    d = make()
    I, O = ports(d)
    s = FastSim(d, {"i%d" % k: x for k, x in enumerate(I)}, {"o%d" % k: x for k, x in enumerate(O)}, domains=list(clocks))
    s.reset()
    # a generator's write is seen after the next edge
    m = np.array([[0] * len(I)] + seq[:-1], dtype=object)
    for k, x in enumerate(I):
        m[0][k] = x.reset.value
    bad = 0
    for t in range(n):
        s.set(**{"i%d" % k: int(m[t][k]) for k in range(len(I))})
        s.tick(list(clocks))
        if t + 1 < n:
            # what migen shows to the generator after its yield: registers after the edge, inputs as just written
            s.set(**{"i%d" % k: int(m[t + 1][k]) for k in range(len(I))})
            s.settle()
            v = s.outd()
            v = [int(v["o%d" % k]) & ((1 << len(x)) - 1) for k, x in enumerate(O)]
            bad += v != got[t]
    print("%-28s %5d cycles, %d differences" % (name, n, bad))
    return bad


def main():
    from litevideo.output.hdmi.encoder import Encoder
    from litevideo.output.core import TimingGenerator
    from litevideo.input.charsync import CharSync
    from litevideo.input.chansync import ChanSync
    from litevideo.input.decoding import Decoding
    from litevideo.input.analysis import SyncPolarity
    from litevideo.csc.rgb2ycbcr import RGB2YCbCr
    from litevideo.csc.ycbcr444to422 import YCbCr444to422
    from litevideo.float_arithmetic.floatadd import FloatAdd
    from litevideo.float_arithmetic.floatmult import FloatMult
    st = lambda d: (sigs(d.sink), sigs(d.source))

    def stream(d):
        i = [x for x in sigs(d.sink) if x is not d.sink.ready] + [d.source.ready]
        return i, [x for x in sigs(d.source) if x is not d.source.ready] + [d.sink.ready]
    bad = 0
    bad += compare("encoder", Encoder, lambda d: ([d.d, d.c, d.de], [d.out]))
    bad += compare("timing generator", TimingGenerator, stream, 2000)
    for n, k in (("rgb2ycbcr", RGB2YCbCr), ("444to422", YCbCr444to422), ("floatadd", FloatAdd), ("floatmult", FloatMult)):
        bad += compare(n, k, stream)
    bad += compare("charsync", CharSync, lambda d: ([d.raw_data], [d.synced, d.data]), 1500, ("pix", "sys"))
    bad += compare("decoding", Decoding, lambda d: ([d.valid_i, d.input], [d.valid_o] + sigs(d.output)), 1500, ("pix",))
    bad += compare("chansync", ChanSync, lambda d: ([d.valid_i] + sum((sigs(getattr(d, "data_in%d" % i)) for i in range(3)), []),
                                                    [d.chan_synced] + sum((sigs(getattr(d, "data_out%d" % i)) for i in range(3)), [])), 1500, ("pix", "sys"))
    bad += compare("sync polarity", SyncPolarity, lambda d: ([d.valid_i] + sum((sigs(getattr(d, "data_in%d" % i)) for i in range(3)), []),
                                                             [d.valid_o, d.de, d.hsync, d.vsync, d.r, d.g, d.b]), 1500, ("pix", "pix_o"))
    return bad


sys.exit(1 if main() else 0)
