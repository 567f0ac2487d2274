"""C0x: colour space conversion, half floats, stream integrity."""
import json, os
import numpy as np
import tlc
from common import FastSim, values

P = 67108859


def endpoint_sim(dut, sink_fields, source_fields):
    ins = {"v": dut.sink.valid, "f": dut.sink.first, "l": dut.sink.last}
    for n in sink_fields:
        ins["i_" + n] = getattr(dut.sink, n)
    ins["rdy"] = dut.source.ready
    outs = {"sr": dut.sink.ready, "v": dut.source.valid, "f": dut.source.first, "l": dut.source.last}
    for n in source_fields:
        outs["o_" + n] = getattr(dut.source, n)
    return FastSim(dut, ins, outs)


RGB, YCC, RGBF, YC2 = ["r", "g", "b"], ["y", "cb", "cr"], ["rf", "gf", "bf"], ["y", "cb_cr"]


def make(kind, dw=8, cw=8):
    """(dut, sink fields, source fields)"""
    if kind == "rgb2ycbcr":
        from litevideo.csc.rgb2ycbcr import RGB2YCbCr
        return RGB2YCbCr(dw, dw, cw), RGB, YCC
    if kind == "ycbcr2rgb":
        from litevideo.csc.ycbcr2rgb import YCbCr2RGB
        return YCbCr2RGB(dw, dw, cw), YCC, RGB
    if kind == "rgb2rgb16f":
        from litevideo.csc.rgb2rgb16f import RGB2RGB16f
        return RGB2RGB16f(), RGB, RGBF
    if kind == "rgb16f2rgb":
        from litevideo.csc.rgb16f2rgb import RGB16f2RGB
        return RGB16f2RGB(), RGBF, RGB
    if kind == "422to444":
        from litevideo.csc.ycbcr422to444 import YCbCr422to444
        return YCbCr422to444(dw), YC2, YCC
    if kind == "444to422":
        from litevideo.csc.ycbcr444to422 import YCbCr444to422
        return YCbCr444to422(dw), YCC, YC2
    if kind == "floatadd":
        from litevideo.float_arithmetic.floatadd import FloatAdd
        return FloatAdd(), ["in1", "in2"], ["out"]
    if kind == "floatmult":
        from litevideo.float_arithmetic.floatmult import FloatMult
        return FloatMult(), ["in1", "in2"], ["out"]
    raise KeyError(kind)


def feed(sim, cols):
    """open loop at full rate: list of component columns -> output columns, aligned.
    (streams always valid / ready; the alignment is by handshake, not by latency)"""
    n = len(cols[0])
    k = len(cols)
    tail = 64
    m = np.zeros((n + tail, sim.nin), dtype=np.int64)
    m[:n, sim.inidx["v"]] = 1
    names = [x for x in sim.inputs if x.startswith("i_")]
    for x, c in zip(names, cols):
        m[:n, sim.inidx[x]] = c
    m[:, sim.inidx["rdy"]] = 1
    sim.reset()
    o = sim.run(m)
    ok = o[:, sim.outidx["v"]] == 1
    acc = (o[:, sim.outidx["sr"]] == 1) & (m[:, sim.inidx["v"]] == 1)
    oc = [o[ok, sim.outidx[x]] for x in sim.outputs if x.startswith("o_")]
    return int(acc.sum()), oc


def digest(mat):
    """mat [n, k]: order-sensitive digest, as ColorSpace!LineY / LineR"""
    w = weights(mat.shape[0])
    if mat.shape[1] == 3:
        v = mat[:, 0] * 131 + mat[:, 1] * 257 + mat[:, 2]
    else:
        v = mat[:, 0]
    return int(((v % P) * w % P).sum() + pow(31, mat.shape[0], P)) % P


_W = {}


def weights(n):
    if n not in _W:
        w = np.empty(n, dtype=np.int64)
        x = 1
        for i in range(n - 1, -1, -1):
            w[i] = x
            x = x * 31 % P
        _W[n] = w
    return _W[n]


def csc_exhaustive(c, kind, direction, rowop):
    """all 2^24 pixels"""
    dut, si, so = make(kind)
    sim = endpoint_sim(dut, si, so)
    bb = np.repeat(np.arange(256), 256)
    cc = np.tile(np.arange(256), 256)
    jobs, planes = [], {}
    for a in range(256):
        n, oc = feed(sim, [np.full(65536, a), bb, cc])
        if n != 65536 or len(oc[0]) != 65536:
            c.violation(kind, "lost_pixels", dict(accepted=n, emitted=len(oc[0]), plane=a))
            return
        planes[a] = np.stack(oc, 1)
        jobs.append({"a": a, "h": digest(planes[a])})
    path = tlc._dump(jobs)
    try:
        r = c.mc(kind + " all 2^24 pixels", "CSDigest", constants={"Dir": direction}, env={"JOBS": path}, workers=8)
    finally:
        os.unlink(path)
    if r.distinct != 256 * 257:
        raise tlc.TLCError("CSDigest examined %d states" % r.distinct)
    c.nrows += 1 << 24
    c.exhaustive = True
    for (_, a, _, _) in r.bad[:2]:
        rows = np.concatenate([np.full((65536, 1), a), bb[:, None], cc[:, None], planes[a]], 1)
        chunks = [({"dw": 8, "cw": 8}, rows[i:i + 4096].tolist()) for i in range(0, 65536, 4096)]
        c.func(kind + " plane %d" % a, "ColorSpace", rowop, chunks, cols=si + so)
    if r.bad and not c.violations:
        raise tlc.TLCError("digest mismatch without a differing row")


def csc_sampled(c, kind, rowop, dw, cw, n):
    dut, si, so = make(kind, dw, cw)
    sim = endpoint_sim(dut, si, so)
    m = (1 << dw) - 1
    edge = np.array([0, 1, 2, m // 2 - 1, m // 2, m // 2 + 1, m - 1, m, m // 16, m // 16 + 1])
    e = np.stack(np.meshgrid(edge, edge, edge), -1).reshape(-1, 3)
    x = np.concatenate([e, c.rng.integers(0, m + 1, (n, 3))])
    k, oc = feed(sim, [x[:, 0], x[:, 1], x[:, 2]])
    if k != len(x) or len(oc[0]) != len(x):
        c.violation("%s dw=%d cw=%d" % (kind, dw, cw), "lost_pixels", dict(accepted=k, emitted=len(oc[0])))
        return
    rows = np.concatenate([x, np.stack(oc, 1)], 1)
    c.func("%s dw=%d cw=%d" % (kind, dw, cw), "ColorSpace", rowop,
           [({"dw": dw, "cw": cw}, rows[i:i + 2000].tolist()) for i in range(0, len(rows), 2000)], cols=si + so)


def C02(c):
    csc_exhaustive(c, "rgb2ycbcr", 0, "YCbCrRow")
    for dw, cw in ((8, 10), (10, 8)) + (((8, 6), (12, 8)) if c.thorough else ()):
        csc_sampled(c, "rgb2ycbcr", "YCbCrRow", dw, cw, 300000 if c.thorough else 60000)


def C03(c):
    csc_exhaustive(c, "ycbcr2rgb", 1, "RGBRow")
    for dw, cw in ((8, 10), (10, 8)) + (((8, 6), (12, 8)) if c.thorough else ()):
        csc_sampled(c, "ycbcr2rgb", "RGBRow", dw, cw, 300000 if c.thorough else 60000)



def C04(c):
    """half-float pixels: all 256 pixel values, all 15360 floats below one, round trip"""
    v = np.arange(256)
    dut, si, so = make("rgb2rgb16f")
    sim = endpoint_sim(dut, si, so)
    perms = [v, c.rng.permutation(256), c.rng.permutation(256)]
    n, oc = feed(sim, perms)
    c.need(n == 256 and len(oc[0]) == 256, "rgb2rgb16f", "lost_pixels", dict(accepted=n, emitted=len(oc[0])))
    if c.violations:
        return
    fl = []
    for k in range(3):
        c.func("rgb2rgb16f." + si[k], "HalfFloat", "PixRow", [({}, np.stack([perms[k], oc[k]], 1).tolist())],
               cols=["pix", "float"])
        fl.append(oc[k])
    dut, si, so = make("rgb16f2rgb")
    sim = endpoint_sim(dut, si, so)
    h = np.arange(15 * 1024)
    perms2 = [h, c.rng.permutation(h), c.rng.permutation(h)]
    n, oc2 = feed(sim, perms2)
    c.need(n == len(h) and len(oc2[0]) == len(h), "rgb16f2rgb", "lost_pixels", dict(accepted=n, emitted=len(oc2[0])))
    if c.violations:
        return
    c.par([lambda k=k: c.func("rgb16f2rgb." + si[k], "HalfFloat", "FloatRow",
           [({}, np.stack([perms2[k], oc2[k]], 1)[i:i + 1024].tolist()) for i in range(0, len(h), 1024)],
           cols=["float", "pix"], workers=2) for k in range(3)])
    # round trip through both real blocks
    n, oc3 = feed(sim, fl)
    for k in range(3):
        c.func("round trip " + si[k], "HalfFloat", "RoundTrip",
               [({}, np.stack([perms[k], fl[k], oc3[k]], 1).tolist())], cols=["pix", "float", "pix"])
    # the two conversion engines a design can choose between agree: table and datapath
    try:
        from litevideo.csc.rgb2rgb16f import PIX2PIXFLUT
    except ImportError:
        PIX2PIXFLUT = None
    if PIX2PIXFLUT is not None:
        d = PIX2PIXFLUT(8, 16)
        s = FastSim(d, {"pix": d.sink.pix, "ce": d.ce}, {"pixf": d.source.pixf})
        o = s.run(np.stack([np.append(v, 0), np.ones(257, dtype=np.int64)], 1))
        c.func("pixel to float table", "HalfFloat", "PixRow", [({}, np.stack([v, o[1:, 0]], 1).tolist())],
               cols=["pix", "float"])
    c.exhaustive = True


FINITE = 31744


def boundary_halves():
    s = set()
    for e in range(31):
        for f in (0, 1, 2, 3, 511, 512, 513, 1021, 1022, 1023):
            s.add(e * 1024 + f)
    return sorted(s)


def float_check(c, kind, op, row, hdr):
    dut, si, so = make(kind)
    sim = endpoint_sim(dut, si, so)
    # 1. boundary x boundary and random pairs, row by row
    b = np.array(boundary_halves())
    e = np.stack(np.meshgrid(b, b), -1).reshape(-1, 2)
    x = np.concatenate([e, c.rng.integers(0, FINITE, (40000, 2)),
                        np.stack([c.rng.integers(0, 4096, 10000), c.rng.integers(0, FINITE, 10000)], 1),
                        c.rng.integers(0, 2048, (5000, 2))])
    # operands are independent of their neighbours in the pipeline: shuffle
    x = x[c.rng.permutation(len(x))]
    if hdr.get("signed"):
        x = x + 32768 * c.rng.integers(0, 2, x.shape)
    n, oc = feed(sim, [x[:, 0], x[:, 1]])
    c.need(n == len(x) and len(oc[0]) == len(x), kind, "lost_operands", dict(accepted=n, emitted=len(oc[0])))
    if c.violations:
        return
    rows = np.concatenate([x, np.stack(oc, 1)], 1)
    c.func(kind + " pairs", "HalfFloat", row, [(hdr, rows[i:i + 4096].tolist()) for i in range(0, len(rows), 4096)],
           cols=["in1", "in2", "out"])
    if c.violations:
        return
    # 2. chosen first operands against every finite second operand (digests)
    if c.thorough:
        a = sorted(set(b.tolist()) | set(range(0, FINITE, 8)) | set(c.rng.integers(0, FINITE, 500).tolist()))
    else:
        a = sorted(set(b[::2].tolist()) | set(c.rng.integers(0, FINITE, 90).tolist()))
    bb = np.arange(FINITE)
    jobs, planes = [], {}
    ovf = None
    for v in a:
        n, oc = feed(sim, [np.full(FINITE, v), bb])
        if n != FINITE or len(oc[0]) != FINITE:
            c.violation(kind, "lost_operands", dict(in1=v))
            return
        o = oc[0] & 0x7fff if op else oc[0]
        planes[v] = oc[0]
        # results beyond the largest finite number are outside the specification
        fv = HV[v] + HV[bb] if op == 0 else HV[v] * HV[bb]
        jobs.append({"a": int(v), "h": digest(np.where(fv >= 65536.0, 0, o)[:, None])})
    path = tlc._dump(jobs)
    try:
        r = c.mc(kind + " against all second operands", "FloatDigest", constants={"Op": op}, env={"JOBS": path}, workers=8)
    finally:
        os.unlink(path)
    if r.distinct != len(jobs) * 33:
        raise tlc.TLCError("FloatDigest examined %d states" % r.distinct)
    c.nrows += len(jobs) * FINITE
    for (_, v, _, _) in r.bad[:2]:
        rows = np.stack([np.full(FINITE, v), bb, planes[v]], 1)
        c.func(kind + " in1=%d" % v, "HalfFloat", row, [(dict(hdr, signed=False), rows[i:i + 4096].tolist())
               for i in range(0, FINITE, 4096)], cols=["in1", "in2", "out"])
    if r.bad and not c.violations:
        raise tlc.TLCError("digest mismatch without a differing row")


def _half_values():
    h = np.arange(FINITE)
    e = h >> 10
    return np.where(e == 0, (h & 1023) * 2.0 ** -24, (1024 + (h & 1023)) * 2.0 ** (e.astype(float) - 25))


HV = _half_values()       # only used to leave out overflowing pairs


def C06(c):
    float_check(c, "floatadd", 0, "AddRow", {})


def C07(c):
    float_check(c, "floatmult", 1, "MulRow", {"signed": True})


def stream_trace(c, sim, kind, dw, sched, n, ni, packet=8):
    rng = c.rng
    sim.reset()
    rows = []
    inn = [x for x in sim.inputs if x.startswith("i_")]
    outn = [x for x in sim.outputs if x.startswith("o_")]
    pv, pr, burst = sched
    cur = None
    mode_v = mode_r = 1
    left = n
    sent = 0
    phase = 0
    halfs = kind in ("rgb16f2rgb",)
    fl = kind in ("floatadd", "floatmult")
    drain = 0
    newpix, linestart, since = True, 0, 0
    while drain < 120:
        if left > 0 and rng.random() < burst:
            mode_v = rng.random() < pv
        if rng.random() < burst:
            mode_r = rng.random() < pr
        stop = left <= 0
        v, r = (int(mode_v), int(mode_r))
        if kind == "444to422":
            v = 1                          # contract: contiguous pixels
        if stop and cur is None:
            # flush: the consumer takes everything, the producer is silent
            drain += 1
            v, r = 0, 1
        if kind == "444to422" and stop and cur is None:
            v = 0
        if v and cur is None:
            if halfs:
                d = [int(x) for x in rng.integers(0, 15 * 1024, ni)]
            elif fl:
                d = [int(x) for x in rng.integers(0, 28 * 1024 if kind == "floatadd" else 15 * 1024, ni)]
            else:
                d = [int(x) for x in rng.integers(0, 1 << dw, ni)]
            cur = (int(rng.random() < .2), int(rng.random() < .2), d)
        if cur is not None and not stop and not v and rng.random() < .7:
            pass
        kw = {"v": v if cur is not None else 0, "rdy": r}
        if kw["v"]:
            kw["f"], kw["l"] = cur[0], cur[1]
            for nme, x in zip(inn, cur[2]):
                kw[nme] = x
        else:
            # data lines are meaningless without valid: noise
            kw["f"], kw["l"] = int(rng.integers(2)), int(rng.integers(2))
            for nme in inn:
                kw[nme] = int(rng.integers(0, 1 << (16 if (halfs or fl) else dw)))
        if "pairfirst" in sim.inputs:
            # lines start on the first pixel and then anywhere; the trace ends on a whole pair
            if kw["v"] and newpix:
                newpix = False
                linestart = int(sent == 0 or (left > 1 and rng.random() < .06))
                since = 1 if linestart else since + 1
            kw["pairfirst"] = linestart if kw["v"] else 0
        o = sim.cycle(**kw)
        rows.append([kw["v"], o["sr"], kw["f"], kw["l"], [kw[nme] for nme in inn],
                     o["v"], r, o["f"], o["l"], [o[nme] for nme in outn]]
                    + ([kw["pairfirst"]] if "pairfirst" in kw else []))
        if kw["v"] and o["sr"]:
            cur = None
            left -= 1
            sent += 1
            newpix = True
            if left == 0 and since % 2:
                left = 1
        if len(rows) > 40 * n + 2000:
            break
    return rows


COLS = ["sink valid", "sink ready", "first", "last", "sink data",
        "source valid", "source ready", "first", "last", "source data"]


def hdr_of(kind, dw):
    return {"kind": kind, "dw": dw, "cw": 8, "maxwait": 40, "pairs": 1 if kind in ("444to422", "422to444") else 0}


SCHEDS = [(1, 1, 1), (.5, .5, 1), (.9, .3, 1), (.3, .9, 1), (.5, .5, .1), (1, .5, .05), (.5, 1, .05), (.7, .7, .3)]


def stream_check(c, kinds, n, finals=True):
    trs = []
    for kind, dw in kinds:
        dut, si, so = make(kind, dw)
        if kind == "444to422":
            sim = resampler_sim(dut, si, so)
        else:
            sim = endpoint_sim(dut, si, so)
        for sched in SCHEDS:
            if n % 2:
                n += 1
            for rep in range(6 if c.thorough else 2):
                trs.append((kind, (hdr_of(kind, dw), stream_trace(c, sim, kind, dw, sched, n, len(si)))))
    for kind, _ in kinds:
        c.traces("stream " + kind, "PixelStream", "Px", [t for k, t in trs if k == kind], cols=COLS, final="PxFinal")


def resampler_sim(dut, si, so):
    ins = {"v": dut.sink.valid, "f": dut.sink.first, "l": dut.sink.last}
    for n in si:
        ins["i_" + n] = getattr(dut.sink, n)
    ins["rdy"] = dut.source.ready
    ins["pairfirst"] = dut.datapath.first
    outs = {"sr": dut.sink.ready, "v": dut.source.valid, "f": dut.source.first, "l": dut.source.last}
    for n in so:
        outs["o_" + n] = getattr(dut.source, n)
    return FastSim(dut, ins, outs)


def C01(c):
    stream_check(c, [("rgb2ycbcr", 8), ("ycbcr2rgb", 8), ("rgb2rgb16f", 8), ("rgb16f2rgb", 8), ("floatadd", 8),
                     ("floatmult", 8), ("422to444", 8)], 4000 if c.thorough else 1500)


def C05(c):
    stream_check(c, [("444to422", 8), ("422to444", 8), ("444to422", 10), ("422to444", 10)], 4000 if c.thorough else 2000)


CHECKS = {"C01": C01, "C02": C02, "C03": C03, "C04": C04, "C05": C05, "C06": C06, "C07": C07}
