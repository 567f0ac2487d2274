"""Running TLC and binding specifications to recorded behaviour of the code."""
import ctypes, json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """TLC could not do its job (not a verdict)."""


class TLCTimeout(TLCError):
    pass


def _die_with_parent():
    ctypes.CDLL(None).prctl(1, 9)


class Result:
    def __init__(self):
        self.states = self.distinct = 0
        self.bad = []            # (trace, step, clause, spec state)
        self.violated = None     # invariant name
        self.trace = ""
        self.out = ""
        self.wall = 0.0


def _run(root, cfg, env, workers, timeout, heap, extra=()):
    d = tempfile.mkdtemp(prefix="tlc_")
    try:
        name = "Root"
        with open(os.path.join(d, name + ".tla"), "w") as f:
            f.write(root)
        with open(os.path.join(d, name + ".cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx%s" % heap,
               "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock",
               "-workers", str(workers)] + list(extra) + ["-config", name + ".cfg", name + ".tla"]
        e = dict(os.environ)
        e.update(env)
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout,
                               preexec_fn=_die_with_parent)
        except subprocess.TimeoutExpired:
            raise TLCTimeout("TLC timed out after %ds" % timeout)
        r = Result()
        r.wall = time.time() - t
        r.out = p.stdout + p.stderr
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", r.out)
        if m:
            r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"([^"]*)",\s*"((?:[^"\\]|\\.)*)"\s*>>', r.out):
            r.bad.append((int(m.group(1)), int(m.group(2)), m.group(3), m.group(4)))
        m = re.search(r"Invariant (\S+) is violated", r.out) or re.search(r"(property|properties) .*violated", r.out)
        if m:
            r.violated = m.group(1)
            i = r.out.find("State 1:")
            r.trace = r.out[i:i + 20000]
        elif p.returncode != 0:
            raise TLCError("TLC exit %d: %s" % (p.returncode, r.out[-3000:]))
        elif "Model checking completed. No error has been found" not in r.out:
            raise TLCError("TLC gave no verdict: " + r.out[-3000:])
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def mc(module, init="Init", nxt="Next", invs=(), constants=None, view=None, constraint=None,
       workers=4, timeout=800, heap="6g", props=(), spec=None, env=None):
    """Model check a specification module on its own."""
    root = "---- MODULE Root ----\nEXTENDS %s\n====\n" % module
    cfg = []
    if spec:
        cfg.append("SPECIFICATION " + spec)
    else:
        cfg += ["INIT " + init, "NEXT " + nxt]
    for k, v in (constants or {}).items():
        cfg.append("CONSTANT %s %s" % (k, v if str(v).startswith("<-") else "= " + str(v)))
    for i in invs:
        cfg.append("INVARIANT " + i)
    for p in props:
        cfg.append("PROPERTY " + p)
    if view:
        cfg.append("VIEW " + view)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    return _run(root, "\n".join(cfg) + "\n", env or {}, workers, timeout, heap)


def _dump(obj):
    fd, p = tempfile.mkstemp(suffix=".json", prefix="trace_")
    with os.fdopen(fd, "w") as f:
        json.dump(obj, f, separators=(",", ":"), default=lambda x: x.item() if hasattr(x, "item") else x.tolist())
    return p


def traces(module, prefix, trs, constants=None, final=None, workers=8, timeout=800, heap="10g"):
    """Validate recorded behaviours: trs = [(hdr dict, rows)], specification operators
    <prefix>Init/<prefix>Check/<prefix>Step of `module`."""
    if not trs or any(len(rows) == 0 for _, rows in trs):
        raise TLCError("empty trace")
    path = _dump([{"hdr": h, "rows": rows} for h, rows in trs])
    try:
        root = ("---- MODULE Root ----\nEXTENDS %s, TraceRun\n====\n" % module)
        cfg = ["INIT TraceInit", "NEXT TraceNext",
               "CONSTANT SInit <- %sInit" % prefix, "CONSTANT SCheck <- %sCheck" % prefix,
               "CONSTANT SStep <- %sStep" % prefix, "CONSTANT SFinal <- %s" % (final or "NoFinal")]
        for k, v in (constants or {}).items():
            cfg.append("CONSTANT %s %s" % (k, v if str(v).startswith("<-") else "= " + str(v)))
        r = _run(root, "\n".join(cfg) + "\n", {"TRACE_FILE": path}, workers, timeout, heap)
    finally:
        os.unlink(path)
    if not r.bad:
        want = sum(len(rows) + 1 for _, rows in trs)
        if r.distinct != want:
            raise TLCError("TLC examined %d states of %d" % (r.distinct, want))
    return r


def func(module, check, chunks, constants=None, workers=8, timeout=800, heap="10g"):
    path = _dump([{"hdr": h, "rows": rows} for h, rows in chunks])
    try:
        root = "---- MODULE Root ----\nEXTENDS %s, FuncRun\n====\n" % module
        cfg = ["INIT FuncInit", "NEXT FuncNext", "CONSTANT FCheck <- " + check]
        for k, v in (constants or {}).items():
            cfg.append("CONSTANT %s = %s" % (k, v))
        r = _run(root, "\n".join(cfg) + "\n", {"TRACE_FILE": path}, workers, timeout, heap)
    finally:
        os.unlink(path)
    if r.distinct != 2 * len(chunks):
        raise TLCError("TLC examined %d states of %d" % (r.distinct, 2 * len(chunks)))
    return r


def lts(module, prefix, hdr, ins, nxt, out, assume=None, constants=None, workers=8, timeout=800,
        heap="12g"):
    """Product of the specification with an extracted Mealy machine."""
    path = _dump({"hdr": hdr, "ins": [list(map(int, r)) for r in ins],
                  "nxt": (nxt + 1).tolist(), "out": out.tolist()})
    try:
        root = "---- MODULE Root ----\nEXTENDS %s, LtsRun\nNoAssume(s,r,h) == TRUE\n====\n" % module
        cfg = ["INIT LtsInit", "NEXT LtsNext", "VIEW View", "INVARIANT Conforms",
               "CONSTANT SInit <- %sInit" % prefix, "CONSTANT SCheck <- %sCheck" % prefix,
               "CONSTANT SStep <- %sStep" % prefix, "CONSTANT SAssume <- %s" % (assume or "NoAssume")]
        for k, v in (constants or {}).items():
            cfg.append("CONSTANT %s = %s" % (k, v))
        r = _run(root, "\n".join(cfg) + "\n", {"LTS_FILE": path}, workers, timeout, heap)
    finally:
        os.unlink(path)
    return r
