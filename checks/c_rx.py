"""T0x, I01-I03, I09: TMDS coding and the symbol side of the receiver."""
import re
import numpy as np
import tlc
from common import FastSim, values, register

TOK = [852, 171, 340, 683]


# ---------------------------------------------------------------- reference encoder for stimulus
def tmds(d, cnt):
    """stimulus only: a DVI encoder (the oracle is TMDS.tla)"""
    n = bin(d).count("1")
    xn = n > 4 or (n == 4 and not d & 1)
    q = d & 1
    for i in range(1, 8):
        b = ((q >> (i - 1)) ^ (d >> i)) & 1
        q |= ((1 - b) if xn else b) << i
    q8 = 0 if xn else 1
    n1 = bin(q).count("1")
    n0 = 8 - n1
    if cnt == 0 or n1 == n0:
        if q8:
            return q + 256, cnt + n1 - n0
        return (255 - q) + 512, cnt + n0 - n1
    if (cnt > 0) == (n1 > n0):
        return 512 + 256 * q8 + 255 - q, cnt + 2 * q8 + n0 - n1
    return 256 * q8 + q, cnt - 2 * (1 - q8) + n1 - n0


def encode_stream(seq):
    """seq of ('c', code) / ('d', byte) / ('s', symbol)"""
    cnt, o = 0, []
    for k, v in seq:
        if k == "d":
            s, cnt = tmds(v, cnt)
        elif k == "c":
            s, cnt = TOK[v], 0
        else:
            s, cnt = v, 0
        o.append(s)
    return o


# ---------------------------------------------------------------- T01
def T01(c):
    from litevideo.output.hdmi.encoder import Encoder
    d = Encoder()
    s = FastSim(d, {"d": d.d, "c": d.c, "de": d.de}, {"out": d.out})
    m = np.zeros((40, 3), dtype=np.int64)
    m[20, 1] = 3
    o = s.run(m)[:, 0]
    lat = [i for i in range(40) if o[i] == TOK[3]]
    if len(lat) != 1 or lat[0] < 20:
        c.violation("encoder", "control_token", dict(probe=o.tolist()))
        return
    lat = lat[0] - 20
    c.mc("encoder specification: inverse, balance, transitions", "TMDS_MC",
         invs=["Inverse", "Balance", "Bounded", "FewTransitions"], view="View", workers=4)
    r = tlc.mc("TMDSTour", invs=["Show"], view="View", workers=1)
    pre = {}
    for a, b in re.findall(r'<<\s*"PRE",\s*(-?\d+),\s*<<([\d,\s]*)>>\s*>>', r.out):
        pre[int(a)] = [int(x) for x in b.replace("\n", " ").split(",") if x.strip()]
    if len(pre) != r.distinct:
        raise tlc.TLCError("tour output")
    c.part("tour", kind="TLC-generated input sequences, one to every reachable disparity", disparities=sorted(pre))
    trs = []

    def play(x):
        x = np.array(x, dtype=np.int64)
        s.reset()
        x2 = np.concatenate([x, np.zeros((lat, 3), dtype=np.int64)])
        o = s.run(x2)
        return np.concatenate([x2, o], 1).tolist()
    for cnt, p in sorted(pre.items()):
        seq = [[0, 0, 0]]
        for x in range(260):
            seq += [[v, int(c.rng.integers(4)), 1] for v in p]
            seq.append([x, int(c.rng.integers(4)), 1] if x < 256 else [int(c.rng.integers(256)), x - 256, 0])
            seq += [[int(v), 0, 1] for v in c.rng.integers(0, 256, 8 if c.thorough else 4)]
            seq.append([int(c.rng.integers(256)), int(c.rng.integers(4)), 0])
        trs.append(({"lat": lat}, play(seq)))
    for k in range(160 if c.thorough else 48):
        n = 12000 if c.thorough else 4000
        x = np.zeros((n, 3), dtype=np.int64)
        mode = k % 4
        x[:, 0] = (values(c.rng, n) if mode == 0 else c.rng.choice([0, 255, 16, 239, 0x55, 0xaa, 1, 128], n) if mode == 1
                   else c.rng.integers(0, 256) if mode == 2 else np.repeat(c.rng.integers(0, 256, n // 8 + 1), 8)[:n])
        x[:, 1] = c.rng.integers(0, 4, n)
        de = np.repeat(c.rng.random(n // 4 + 1) < c.rng.choice([.2, .5, .9, .99]), 4)[:n] if k % 2 else c.rng.random(n) < .8
        x[:, 2] = de
        x[0, 2] = 0
        trs.append(({"lat": lat}, play(x)))
    c.traces("encoder", "TMDS", "Enc", trs, cols=["d", "c", "de", "out"])


# ---------------------------------------------------------------- T02
def T02(c):
    from litevideo.input.decoding import Decoding
    d = Decoding()
    s = FastSim(d, {"v": d.valid_i, "i": d.input},
                {"v": d.valid_o, "de": d.output.de, "c": d.output.c, "d": d.output.d, "raw": d.output.raw})
    trs = []
    allsym = np.arange(1024)
    for k in range(48 if c.thorough else 12):
        sym = np.concatenate([allsym, c.rng.permutation(1024), c.rng.choice(TOK, 100), c.rng.integers(0, 1024, 2000)]) if k == 0 \
            else np.where(c.rng.random(4000) < .3, c.rng.choice(TOK, 4000), c.rng.integers(0, 1024, 4000))
        m = np.stack([c.rng.integers(0, 2, len(sym)), sym], 1)
        s.reset()
        o = s.run(m)
        trs.append(({}, np.concatenate([m, o], 1).tolist()))
    c.traces("decoder", "HDMIRx", "Dec", trs, cols=["valid_i", "symbol", "valid_o", "de", "c", "d", "raw"])
    # encoder into decoder: every byte comes back, at every disparity the traffic produces
    from litevideo.output.hdmi.encoder import Encoder
    from migen import Module, ClockDomainsRenamer, Signal

    class Loop(Module):
        def __init__(self):
            self.submodules.e = ClockDomainsRenamer("pix")(Encoder())
            self.submodules.dec = Decoding()
            self.comb += self.dec.input.eq(self.e.out)
    l = Loop()
    s = FastSim(l, {"d": l.e.d, "c": l.e.c, "de": l.e.de}, {"de": l.dec.output.de, "c": l.dec.output.c, "d": l.dec.output.d})
    trs = []
    for k in range(60 if c.thorough else 20):
        n = 4000
        x = np.stack([values(c.rng, n), c.rng.integers(0, 4, n), (c.rng.random(n) < .9) * 1], 1)
        x[:10] = [0, 0, 0]
        s.reset()
        o = s.run(x)
        # alignment: first data symbol out for first data symbol in
        i0, o0 = int(np.argmax(x[:, 2])), int(np.argmax(o[8:, 0])) + 8
        lag = o0 - i0
        c.need(0 < lag < 16, "encoder to decoder", "latency", dict(lag=lag))
        if c.violations:
            return
        trs.append(({}, np.concatenate([x[:n - lag], o[lag:]], 1).tolist()))
    c.traces("encoder to decoder", "HDMIRx", "Lop", trs, cols=["d", "c", "de", "de_out", "c_out", "d_out"])


# ---------------------------------------------------------------- I01
def charsync(req, regs=False):
    from litevideo.input.charsync import CharSync
    d = CharSync(required_controls=req)
    outs = {"synced": d.synced, "data": d.data}
    if regs:
        outs.update(rsync=register(d, "char_synced").status, rpos=register(d, "ctl_pos").status)
    return FastSim(d, {"raw": d.raw_data}, outs, domains=["pix", "sys"] if regs else ["pix"])


def cut(chars, phase):
    """10-bit words seen by a receiver `phase` bits late"""
    bits = np.zeros(len(chars) * 10 + 10, dtype=np.int64)
    for i in range(10):
        bits[phase + i:phase + i + 10 * len(chars):10] = (np.array(chars) >> i) & 1
    n = len(bits) // 10
    w = bits[:n * 10].reshape(n, 10)
    return (w << np.arange(10)).sum(1)


def video_chars(rng, lines, blank, active, de=True):
    seq = []
    for l in range(lines):
        seq += [("c", int(rng.integers(4)))] * blank if rng.random() < .7 else [("c", int(x)) for x in rng.integers(0, 4, blank)]
        seq += [("d", int(x)) for x in rng.integers(0, 256, active)]
    return encode_stream(seq)


def I01(c):
    c.mc("synchroniser specification, any characters at any phase", "CharSync_MC", invs=["Right", "Locks"],
         constants=dict(Req=8), workers=4)
    trs = []
    lagp = charsync(8)
    for req in (8, 2, 3, 16):
        s = charsync(req, True)
        for k in range(30 if c.thorough else 12):
            # control runs at changing phases mixed with arbitrary words
            w = []
            while len(w) < 1500:
                r = c.rng.random()
                if r < .5:
                    ch = [TOK[int(i)] for i in c.rng.integers(0, 4, int(c.rng.integers(1, 2 * req + 2)))]
                    w += cut(ch, int(c.rng.integers(0, 10))).tolist()
                elif r < .8:
                    w += cut(video_chars(c.rng, 1, int(c.rng.integers(1, req + 2)), 6), int(c.rng.integers(0, 10))).tolist()
                else:
                    w += c.rng.integers(0, 1024, int(c.rng.integers(1, 8))).tolist()
            m = np.array(w, dtype=np.int64)[:, None]
            s.reset()
            o = s.run(m)
            trs.append(({"req": req, "reg": 1}, np.concatenate([m, o], 1).tolist()))
    c.traces("character synchroniser, arbitrary words", "HDMIRx", "Chr", trs, cols=["raw", "synced", "data", "synced register", "position register"])
    # guarantee: for each phase, video traffic comes out word aligned
    trs = []
    s = charsync(8)
    for phase in range(10):
        for k in range(10 if c.thorough else 3):
            chars = video_chars(c.rng, 30, int(c.rng.integers(10, 40)), int(c.rng.integers(1, 60)))
            raw = cut(chars, phase)[:len(chars)]
            s.reset()
            o = s.run(raw[:, None])
            # a character whose bits end in raw word i is on the output hdr.lag rows later
            lag = 2 if phase == 0 else 1
            ch = np.array(chars)
            want = np.roll(ch, 2 if phase else 2)
            rows = np.concatenate([raw[:, None], o, want[:, None]], 1)[4:]
            trs.append(({"settle": 200, "phase": phase}, rows.tolist()))
    c.traces("character synchroniser, each bit phase", "HDMIRx", "ChrA", trs, cols=["raw", "synced", "data", "char"])
    # every sequence over a small alphabet of words
    for req, letters in ((2, [852, 340, 0, 680 & 1023]), (3, [171, 683, 341])) if not c.thorough else \
            ((2, [852, 340, 0, 680, 171]), (3, [171, 683, 341, 0]), (4, [852, 681, 340])):
        s = charsync(req)
        c.lts("character synchroniser, all sequences over %d words, %d controls" % (len(letters), req), "HDMIRx", "Chr",
              {"req": req, "reg": 0}, s, np.array(letters)[:, None])


# ---------------------------------------------------------------- I02
def chansync(n=3, depth=8, regs=False):
    from litevideo.input.chansync import ChanSync
    d = ChanSync(n, depth)
    ins, outs = {"v": d.valid_i}, {}
    for i in range(n):
        r = getattr(d, "data_in%d" % i)
        for f in ("raw", "d", "c", "de"):
            ins["%s%d" % (f, i)] = getattr(r, f)
    for i in range(n):
        r = getattr(d, "data_out%d" % i)
        outs["o%d" % i] = r.raw_bits()
    outs["sync"] = d.chan_synced
    if regs:
        outs["rsync"] = register(d, "channels_synced").status
    return FastSim(d, ins, outs, domains=["pix", "sys"] if regs else ["pix"])


def split_words(w):
    """word matrix [n, chan] -> input columns raw,d,c,de per channel"""
    cols = []
    for i in range(w.shape[1]):
        x = w[:, i]
        cols += [x & 1023, (x >> 10) & 255, (x >> 18) & 3, (x >> 20) & 1]
    return np.stack(cols, 1)


def I02(c):
    c.mc("skew removal by the specification, every skew", "HDMIRx_MC", invs=["Aligned"],
         constants=dict(Depth=8, MaxSkew=7, Blank=9, Active=9), workers=6)
    s = chansync(regs=True)
    trs, tra = [], []
    for k in range(160 if c.thorough else 48):
        n = 1500
        if k % 4 == 0:
            w = c.rng.integers(0, 1 << 20, (n, 3)) + (c.rng.random((n, 3)) < c.rng.choice([.3, .6, .9])) * (1 << 20)
        else:
            # lines, with the same skew in each channel or a drifting one
            blank, active = int(c.rng.integers(9, 30)), int(c.rng.integers(8, 40))
            seq = np.concatenate([c.rng.integers(0, 1 << 20, n + 40)]) & ~(1 << 20)
            seq = seq + ((np.arange(n + 40) % (blank + active)) >= blank) * (1 << 20)
            per = [seq + 0 for _ in range(3)]
            sk = c.rng.integers(0, 8, 3)
            w = np.stack([p[20 - int(q):20 - int(q) + n] for p, q in zip(per, sk)], 1)
        v = np.ones(n, dtype=np.int64) if k % 4 else (c.rng.random(n) < .95) * 1
        s.reset()
        m = np.concatenate([v[:, None], split_words(w)], 1)
        o = s.run(m)
        rows = np.concatenate([v[:, None], w, o], 1)
        trs.append(({"n": 3, "depth": 8, "reg": 1}, rows.tolist()))
        if k % 4:
            tra.append(({"n": 3, "settle": 3 * (blank + active) + 20}, rows.tolist()))
    c.traces("channel synchroniser", "HDMIRx", "Chn", trs, cols=["valid", "in0", "in1", "in2", "out0", "out1", "out2", "synced", "register"])
    c.traces("channel synchroniser, skewed channels", "HDMIRx", "ChA", tra)
    # all skew combinations on the real block
    tra = []
    for a in range(8):
        for b in range(8):
            blank, active, n = 10, 9, 130
            seq = np.arange(n + 20) % 1000
            seq = seq + ((np.arange(n + 20) % (blank + active)) >= blank) * (1 << 20)
            for e in ([0] if not c.thorough else range(8)):
                w = np.stack([seq[10 - q:10 - q + n] for q in (a, b, e)], 1)
                s.reset()
                o = s.run(np.concatenate([np.ones((n, 1), dtype=np.int64), split_words(w)], 1))
                tra.append(({"n": 3, "settle": 3 * (blank + active)}, np.concatenate([np.ones((n, 1), dtype=np.int64), w, o], 1).tolist()))
    c.traces("channel synchroniser, every skew", "HDMIRx", "ChA", tra)
    # every sequence for two channels and a two/four word buffer
    for depth in (2, 3) if not c.thorough else (2, 3, 4):
        s2 = chansync(2, depth)
        w = [[v, a, b] for v in (0, 1) for a in (0, 1 << 20) for b in (0, 1 << 20)] + [[1, 5 + (1 << 20), 3 + (1 << 20)]] * (depth < 4)
        w = np.array(w)
        c.lts("channel synchroniser, every sequence, 2 channels x %d words" % depth, "HDMIRx", "Chn", {"n": 2, "depth": depth, "reg": 0},
              s2, np.concatenate([w[:, :1], split_words(w[:, 1:])], 1), row_ins=w)


# ---------------------------------------------------------------- I03
def terc4():
    from litevideo.input.decoding import DecodeTERC4
    from migen import ClockDomainsRenamer
    d = DecodeTERC4()
    dd = ClockDomainsRenamer("pix")(d)
    ins = {"v": d.valid_i}
    for i in range(3):
        ins["raw%d" % i] = getattr(d, "data_in%d" % i).raw
    ins["de0"] = d.data_in0.de
    ins["dvi"] = d.dvimode.storage
    return FastSim(dd, ins, {"de": d.de_o, "t4": d.encoding_terc4, "ev": d.encrypting_video, "ed": d.encrypting_data,
                           **{"n%d" % i: getattr(d, "data%d_dect4" % i).decval.d for i in range(3)}})


T4TOK = [0b1010011100, 0b1001100011, 0b1011100100, 0b1011100010, 0b0101110001, 0b0100011110, 0b0110001110, 0b0100111100,
         0b1011001100, 0b0100111001, 0b0110011100, 0b1011000110, 0b1010001110, 0b1001110001, 0b0101100011, 0b1011000011]
GB, VGB = 307, [716, 307, 716]


def hdmi_link(rng, items, maxv=12):
    """HDMI-shaped traffic: symbols per channel, and what each one is"""
    sy, kind = [], []

    def ctl(n, c1, c2):
        for _ in range(n):
            sy.append([TOK[int(rng.integers(4))], TOK[c1], TOK[c2]])
            kind.append(0)
    for _ in range(items):
        ctl(int(rng.integers(4, 14)), 0, 0)
        if rng.random() < .4:
            ctl(8, 1, 1)
            for _ in range(2):
                sy.append([T4TOK[int(rng.integers(12, 16))], GB, GB]); kind.append(2)
            for _ in range(int(rng.integers(1, 3)) * 32):
                sy.append([T4TOK[int(x)] for x in rng.integers(0, 16, 3)]); kind.append(3)
            for _ in range(2):
                sy.append([T4TOK[int(rng.integers(12, 16))], GB, GB]); kind.append(4)
            ctl(int(rng.integers(4, 14)), 0, 0)
        if rng.random() < .8:
            ctl(8, 1, 0)
            for _ in range(2):
                sy.append(list(VGB)); kind.append(5)
            cnt = [0, 0, 0]
            like = int(rng.choice([0, 0, 1, 1, 2, 3]))      # first pixels whose characters are those of the guard band
            for k in range(int(rng.integers(1, maxv))):
                x = []
                for i in range(3):
                    q, cnt[i] = tmds(int(rng.integers(256)) if k >= like else [0xab, 0x55, 0xab][i], cnt[i])
                    x.append(q)
                sy.append(x); kind.append(1)
    ctl(8, 0, 0)
    return np.array(sy), np.array(kind)


def I03(c):
    c.mc("period specification under any source, corrupted characters", "Link_MC", invs=["Told", "NoPicture"],
         constants=dict(Errors=3 if c.thorough else 2), workers=4)
    s = terc4()
    trs, per = [], []
    syms = TOK + [GB, 716, 100, 700]
    for k in range(160 if c.thorough else 48):
        dvi = k % 4 == 0
        if k % 2:
            sy, kind = hdmi_link(c.rng, 30)
            n = len(sy)
            v = np.ones(n, dtype=np.int64)
            v[:3] = 0
            de0 = np.array([x not in TOK for x in sy[:, 0]]) * 1
        else:
            n = 2500
            hold = int(c.rng.integers(1, 5))
            sy = np.repeat(c.rng.choice(syms, (n // hold + 1, 3)), hold, 0)[:n]
            pre = c.rng.random(n) < .3
            sy[pre] = np.array([[852, 171, 171], [852, 171, 852], [GB, GB, GB], [716, 307, 716]])[c.rng.integers(0, 4, pre.sum())]
            v = (c.rng.random(n) < .97) * 1
            de0 = c.rng.integers(0, 2, n)
        mode = np.full(n, int(dvi))
        if k % 3 == 0:      # software changes the mode while characters come in
            for at in c.rng.integers(0, n, int(c.rng.integers(1, 6))):
                mode[at:] ^= 1
            mode = mode ^ mode[0] ^ int(dvi)
        m = np.concatenate([v[:, None], sy, de0[:, None], mode[:, None]], 1)
        s.reset()
        idle = np.zeros((6, s.nin), dtype=np.int64)
        idle[:, s.inidx["dvi"]] = int(dvi)
        s.run(idle)
        o = s.run(m)
        trs.append(({"dvi": int(dvi)}, np.concatenate([m, o], 1).tolist()))
        if k % 2 and not mode.any():
            per.append(({}, np.concatenate([kind[3:-2, None], o[5:, :4]], 1).tolist()))
    nib = []
    for k in range(12):
        x = np.array(T4TOK)[np.stack([c.rng.permutation(16) for _ in range(3)], 1)]
        m = np.zeros((len(x) + 1, s.nin), dtype=np.int64)
        m[:-1, 1:4] = x
        m[:, 0] = 1
        o = s.run(m)
        nib += np.concatenate([x, o[1:, 4:7]], 1).tolist()
    c.func("TERC4 values", "HDMIRx", "Nibble", [({}, nib)], cols=["sym0", "sym1", "sym2", "val0", "val1", "val2"])
    c.traces("link periods", "HDMIRx", "T4P", per, cols=["kind", "de_o", "data_island", "enc_video", "enc_data"])
    cols = ["valid", "sym0", "sym1", "sym2", "de0", "dvi", "de_o", "data_island", "enc_video", "enc_data", "val0", "val1", "val2"]
    c.traces("period decoder", "HDMIRx", "T4", trs, cols=cols)
    # every sequence over a small alphabet of symbol triples
    letters = [[1, 852, 852, 852, 0, 0], [1, 852, 171, 171, 0, 0], [1, 852, 171, 852, 0, 0], [1, T4TOK[13], GB, GB, 1, 0],
               [1, 716, 307, 716, 1, 0], [1, 5, 6, 7, 1, 0], [1, 5, 852, 7, 1, 0], [0, 852, 171, 171, 0, 0],
               [1, 307, 307, 6, 1, 0], [1, 716, 307, 307, 1, 0], [1, 5, 6, 171, 1, 0], [1, 852, 6, 7, 1, 0]]
    if c.thorough:
        letters += [[1, a, b, e, 1, 0] for a in (852, 716, 5) for b in (852, 171, 340, 307, 6) for e in (852, 171, 683, 716, 307, 7)]
    c.lts("period decoder, every sequence over %d symbol triples" % len(letters), "HDMIRx", "T4", {"dvi": 0}, s, np.array(letters))


# ---------------------------------------------------------------- I09
def I09(c):
    from litevideo.input.wer import WER
    trs = []
    for k in range(60 if c.thorough else 20):
        bits = (4, 5, 6, 8)[k % 4]
        d = WER(bits)
        s = FastSim(d, {"data": d.data, "upd": d._update.re}, {"v": d._value.status}, domains=["pix", "sys"])
        n = 6000
        pp = (1, .7, 1)[k % 3]
        sp = (1, 1, .6)[k % 3]
        rate = c.rng.choice([0, .02, .3, 1])
        good = np.array(video_chars(c.rng, n // 20 + 1, 10, 10))[:n]
        x = np.where(c.rng.random(n) < rate, c.rng.integers(0, 1024, n), good)
        if k == 3:
            x = np.resize(np.arange(1024), n)
        pt, st = c.rng.random(n) < pp, c.rng.random(n) < sp
        st |= ~pt & ~st
        up = (c.rng.random(n) < .2) * 1
        masks = pt * s._mask_of(["pix"]) + st * s._mask_of(["sys"])
        s.reset()
        o = s.run(np.stack([x, up], 1), masks=masks)
        trs.append(({"period": 1 << bits, "lag": 3, "hand": 5},
                    np.concatenate([pt[:, None] * 1, st[:, None] * 1, x[:, None], up[:, None], o], 1).tolist()))
    c.traces("word error counter", "HDMIRx", "Wer", trs, cols=["pix_tick", "sys_tick", "data", "update", "value"])
    # at the period designs use
    for bits in (24, 17, 20) if c.thorough else (24,):
        d = WER() if bits == 24 else WER(bits)
        s = FastSim(d, {"data": d.data, "upd": d._update.re}, {"v": d._value.status}, domains=["pix", "sys"])
        rows = []
        s.reset()
        for k in range(3 if bits < 24 else 2 if c.thorough else 1):
            left = (1 << bits) - (0 if k else 1)
            runs = []
            a = 2000
            def play(n, w):
                while n > 0:
                    q = min(n, 1 << 20)
                    s.run(np.tile(np.array([[w, 0]], dtype=np.int64), (q, 1)))
                    n -= q
            play(a, 852)
            left -= a
            for n in (70001, 65536, (1 << (bits - 2)) + 12345, 1, int(c.rng.integers(1, 1 << (bits - 2)))):
                for w in (0x155, int(c.rng.choice([0, 171, 340, 512, 0x333]))):
                    if left > n + 4000:
                        play(n, w)
                        runs.append([n, w])
                        left -= n
            play(left, 171)
            m = np.full((40, 2), 852, dtype=np.int64)
            m[:, 1] = 0
            m[20, 1] = 1
            o = s.run(m)
            play(1, 852)
            left = 0
            rows.append([runs, int(o[-1, 0])])
            # continue the next measurement from where this one really is
            if bits < 24 or c.thorough:
                play((1 << bits) - 41, 852)
        c.func("word error counter, %d-bit period" % bits, "HDMIRx", "WerBig", [({}, rows)], cols=["runs of <<length, word>>", "value"])
    # the counters of a whole receiver: every channel counts its own characters, after they are put together
    from c_chain import Receiver
    R = Receiver(*[("ycbcr422", False, 32), ("rgb", True, 64)][int(c.rng.integers(2))])
    s = R.sim
    per = 1 << 24
    def feed(words):
        m = np.zeros((len(words[0]), s.nin), dtype=np.int64)
        for i in range(3):
            m[:, s.inidx["raw%d" % i]] = words[i]
        return s.run(m)
    s.reset()
    ph = [int(x) for x in c.rng.permutation(np.arange(1, 10))[:3]]
    done = 0
    def chars(seqs, last):
        """characters, in chunks; the bits of the last character of the chunk before come first"""
        nonlocal done
        out = []
        for i in range(3):
            w = cut(np.concatenate([[last[i]], seqs[i]]), ph[i])[1:len(seqs[i]) + 1]
            out.append(w)
        done += len(seqs[0])
        feed(out)
        return [int(x[-1]) for x in seqs]
    last = [852] * 3
    last = chars([np.full(4000, 852)] * 3, last)
    while done < per:            # first measurement: getting in step
        last = chars([np.full(min(1 << 19, per - done), 852)] * 3, last)
    last = chars([np.full(1000, 852)] * 3, last)
    # words that, repeated, look like control characters at another place would move it
    still = [w for w in range(1024) if not any(((w << r | w >> (10 - r)) & 1023) in TOK for r in range(1, 10))]
    runs = [[], [], []]
    while done < 2 * per - 4000:
        n = min(int(c.rng.integers(1, 1 << 19)), 2 * per - 4000 - done)
        k = int(c.rng.integers(1, 8))
        seqs = []
        for i in range(3):
            b = np.zeros(n, dtype=np.int64)
            e = np.sort(c.rng.integers(0, n + 1, k))
            for a, z in zip([0, *e], [*e, n]):
                w = int(c.rng.choice(list(TOK) + [0x155, 0x2aa, 256, 0x155, 5] + [int(c.rng.choice(still)) for _ in range(6)]))
                b[a:z] = w
                if z > a:
                    runs[i].append([int(z - a), w])
            seqs.append(b)
        last = chars(seqs, last)
    last = chars([np.full(4100, 852)] * 3, last)
    vals = []
    for i in range(3):
        m = np.zeros((60, s.nin), dtype=np.int64)
        for q in range(3):
            m[:, s.inidx["raw%d" % q]] = cut(np.full(61, 852), ph[q])[1:61]
        m[10, s.inidx["b_we"]], m[10, s.inidx["b_adr"]] = 1, R.reg("data%d_wer_update" % i)
        m[20:, s.inidx["b_adr"]] = R.reg("data%d_wer_value" % i)
        vals.append([runs[i], int(s.run(m)[-1, s.outidx["b_r"]])])
    c.func("error counters of a receiver", "HDMIRx", "WerBig", [({}, vals)], cols=["runs of <<length, word>>", "value"])


CHECKS = {f.__name__: f for f in (T01, T02, I01, I02, I03, I09)}
