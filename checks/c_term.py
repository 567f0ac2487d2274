"""V01-V03: the VGA text terminal."""
import os
import tempfile
import numpy as np
from migen import *
from common import FastSim, REPO


def terminal(connector=False, **kw):
    """without a connector the terminal makes the signals itself"""
    from migen.genlib.record import Record
    from litevideo.terminal.core import Terminal
    pads = Record([("hsync", 1), ("vsync", 1), ("red", 8), ("green", 8), ("blue", 8)]) if connector else None
    t = Terminal(pads, **kw) if connector else Terminal(**kw)
    b = t.bus
    v = pads if connector else t
    s = FastSim(t, {"cyc": b.cyc, "stb": b.stb, "we": b.we, "adr": b.adr, "dat": b.dat_w},
                {"ack": b.ack, "rd": b.dat_r, "hs": v.hsync, "vs": v.vsync, "r": v.red, "g": v.green, "b": v.blue},
                domains=["sys", "vga"])
    return s


def own_files(rng, f, parts):
    """a terminal that starts with other contents; -> simulation, contents"""
    mem, kw = [], {}
    with tempfile.TemporaryDirectory() as d:
        for name, n in (("screen_init_filename", 4800), ("font_filename", 4096)):
            if name in parts:
                x = rng.integers(0, 256, n).astype(np.uint8)
                kw[name] = os.path.join(d, name)
                x.tofile(kw[name])
                mem += x.tolist()
            else:
                kw[name] = ""
                mem += [0] * n
        return f(**kw), mem


def contents():
    """what the memory is initialised with"""
    d = os.path.join(REPO, "litevideo", "terminal")
    m = list(open(d + "/screen-init.bin", "rb").read()) + list(open(d + "/cp437.bin", "rb").read())
    assert len(m) == 8896
    return m


def font():
    """code page 437, a glyph per line"""
    return list(bytes.fromhex(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "cp437.hex")).read()))


PICTURE = 800 * 521


def store(s, writes):
    """bus writes, two clocks each"""
    m = np.zeros((2 * len(writes), s.nin), dtype=np.int64)
    for k, (a, v) in enumerate(writes):
        m[2 * k:2 * k + 2] = [1, 1, 1, a, v]
    o = s.run(m, doms=["sys"])
    return (o[1::2, s.outidx["ack"]] == 1).all()


def picture(s, n):
    """n clocks of the vga domain -> outputs"""
    m = np.zeros((n, s.nin), dtype=np.int64)
    return s.run(m, doms=["vga"])


def busy_picture(s, n, ram, rng, p=(.8, .7)):
    """n clocks of the vga domain while the bus reads, and writes what is there already -> outputs"""
    N = int(n / p[1] * 1.01) + 2000
    st, vt = rng.random(N) < p[0], rng.random(N) < p[1]
    vt[np.cumsum(vt) > n] = False
    # a request lasts two ticks
    q = (np.cumsum(st) - st) // 2
    k = int(q[-1]) + 1
    on, we, adr = rng.random(k) < .8, rng.random(k) < .5, rng.integers(0, 8896, k)
    m = np.stack([on, on, we, adr, np.array(ram)[adr]], 1).astype(np.int64)[q]
    o = s.run(m, masks=st * s._mask_of(["sys"]) + vt * s._mask_of(["vga"]))
    return o[vt]


def V01(c):
    trs = []
    for k in range(3 if c.thorough else 2):
        s = terminal(k == 1)
        s.reset()
        ram = c.rng.integers(0, 256, 8896).tolist()
        if k:
            store(s, list(enumerate(ram)))
        o = picture(s, (8 if c.thorough else 3) * PICTURE + 5000)
        hs, vs = o[:, s.outidx["hs"]], o[:, s.outidx["vs"]]
        cut = np.concatenate([[0], np.nonzero((np.diff(hs) != 0) | (np.diff(vs) != 0))[0] + 1, [len(hs)]])
        trs.append(({}, [[int(hs[a]), int(vs[a]), int(b - a)] for a, b in zip(cut[:-1], cut[1:])]))
        c.part("raster %d" % k, clocks=len(hs))
    c.traces("sync raster", "Terminal", "Ras", trs, final="RasFinal", cols=["hsync", "vsync", "clocks"])
    c.assumptions += ["640x480 at 60 Hz as documented in the module: 800 clocks by 521 lines"]


def V02(c):
    sims = terminal(), terminal(True)
    chunks = []
    n = 20 if c.thorough else 10
    for k in range(n):
        s = sims[k % 3 == 1]
        ram = contents()[:4800] + font()
        if k == 1:
            ram = c.rng.integers(0, 256, 8896).tolist()
        elif k > 1:
            # random text in the usual font, the colours of a cell all different
            ram[:4800] = c.rng.integers(0, 256, 4800).tolist()
            if k == 3:
                ram = [255 - x for x in ram]
        if k in (8, 9):
            s, ram = own_files(c.rng, terminal, ("screen_init_filename", "font_filename") if k == 8 else ("font_filename", ))
        s.reset()
        if k and k not in (8, 9):
            store(s, list(enumerate(ram)))
        if k % 2 and k != 9:
            # not from power-up, the text changed while a picture was shown
            pre = 800 * int(c.rng.integers(1, 521)) + int(c.rng.integers(0, 800))
            s.reset()
            picture(s, pre)
            store(s, list(enumerate(ram)))
        if k > 1:
            # not always the first picture
            picture(s, int(c.rng.integers(4)) * PICTURE)
        if k % 5 == 4:
            # with the bus in use
            o = busy_picture(s, 2 * PICTURE + 900, ram, c.rng, (.8, .7) if k % 2 else (.9, .99))
        else:
            o = picture(s, 2 * PICTURE + 900)
        i = s.outidx
        vs, hs = o[:, i["vs"]], o[:, i["hs"]]
        f = np.nonzero((vs[:-1] == 1) & (vs[1:] == 0))[0][0] + 1
        # the fall of hsync that starts the picture
        g = np.nonzero((hs[:-1] == 1) & (hs[1:] == 0))[0] + 1
        f = int(g[np.abs(g - f).argmin()])
        col = ((o[:, i["r"]] << 16) | (o[:, i["g"]] << 8) | o[:, i["b"]])[f:f + PICTURE].reshape(521, 800)
        hdr = {"mem": ram}
        lines = range(521)
        if not c.thorough and k > 1:
            lines = sorted(set([0, 30, 31, 46, 47, 510, 511, 520]) | set(c.rng.integers(0, 521, 150).tolist()))
        rows = [[y] + col[y].tolist() for y in lines]
        for j in range(0, len(rows), 70):
            chunks.append((hdr, rows[j:j + 70]))
    c.func("text on the screen", "Terminal", "TextLine", chunks, cols=["line", "colours"])
    c.assumptions += ["while a picture is scanned the bus writes only what the memory holds already"]


def V03(c):
    sim = terminal()
    trs = []
    usual = contents()
    for k in range(60 if c.thorough else 24):
        s, first = sim, usual
        if k % 12 == 5:
            s, first = own_files(c.rng, terminal, ("screen_init_filename", ) if k == 5 else ("screen_init_filename", "font_filename"))
        n = 6000 if k else 20000
        if k:
            pool = sorted(set([0, 1, 4799, 4800, 8895, 8894, 4096, 8192] + c.rng.integers(0, 8896, 12).tolist()))
        else:
            pool = list(range(8896))
        p = (.5, .9, 1, .2)[k % 4]
        rows = []
        s.reset()
        st = c.rng.random(n) < (1 if k % 3 else .7)
        vt = c.rng.random(n) < (1, .4, .8)[k % 3]
        req = None
        todo = list(c.rng.permutation(8896)) if k == 0 else None
        for t in range(n):
            if req is None and c.rng.random() < p or (k == 0 and req is None and todo):
                if todo:
                    j = int(todo.pop())
                else:
                    j = int(c.rng.integers(len(pool)))
                req = (int(c.rng.random() < .5), j, int(c.rng.integers(256)))
            if req:
                s.set(cyc=1, stb=1, we=req[0], adr=pool[req[1]], dat=req[2])
            else:
                # a bus that is busy elsewhere
                x = int(c.rng.integers(3))
                s.set(cyc=int(x == 1), stb=int(x == 2), we=int(c.rng.integers(2)), adr=int(c.rng.integers(8896)), dat=int(c.rng.integers(256)))
            s.settle()
            o = s.outd()
            if st[t]:
                rows.append([int(req is not None)] + (list(req[:1]) + [req[1] + 1, req[2]] if req else [0, 1, 0]) + [int(o["ack"]), int(o["rd"])])
                if o["ack"]:
                    req = None
            s.tick([d for d, x in (("sys", st[t]), ("vga", vt[t])) if x])
        trs.append(({"init": [first[a] for a in pool]}, rows))
    c.traces("bus access", "Terminal", "Wb", trs, cols=["request", "write", "address", "data", "ack", "read"])
    c.assumptions += ["a bus master holds its request until the acknowledge"]


CHECKS = {"V01": V01, "V02": V02, "V03": V03}
