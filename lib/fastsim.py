"""FHDL -> C simulator for the Migen modules of litevideo.

Compiles the FHDL fragment of a module (exactly the statements migen's own
Simulator would interpret) into a small C library, so that the recorded
behaviours the TLA+ specifications are checked against can be long, many, and
- at small parameters - exhaustive.  The semantics are those of
migen.sim.core.Simulator; `selftest.py` cross-checks both on every module the
checks use.

Differences, all deliberate:
 * Instances (vendor primitives) are black boxes: the expressions on their
   input ports are observable probes and the signals on their output ports are
   free inputs.
 * Tristates: `o`/`oe` are observable, `i` is a free input.
 * A shift by a negative amount (migen's interpreter raises) gives what the
   generated Verilog gives: 0 (or -1 for an arithmetic right shift of a negative
   value).
"""
import ctypes, hashlib, os, subprocess, tempfile
from collections import OrderedDict

import numpy as np

from migen import *
from migen.fhdl.structure import (_Value, _Operator, _Slice, _Part, _ArrayProxy,
                                  _Assign, _Fragment, _Statement)
from migen.fhdl.specials import (Memory, _MemoryPort, WRITE_FIRST, NO_CHANGE,
                                 Instance, Tristate)
from migen.fhdl.specials import _MemoryLocation
from migen.fhdl.bitcontainer import value_bits_sign
from migen.fhdl.tools import (list_targets, list_inputs, insert_resets, lower_specials,
                              group_by_targets)
from migen.genlib.resetsync import AsyncResetSynchronizer
from migen.sim.core import DummyAsyncResetSynchronizer

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

I63 = 1 << 63


class SimError(Exception):
    pass


class WideError(SimError):
    """needs a wider host type"""


def _ctype(nbits, signed):
    return "i64" if nbits <= 63 or (signed and nbits <= 64) else "i128"


class _BB:
    """A black-boxed vendor primitive."""
    def __init__(self, of, name, params, ins, outs):
        self.of, self.name, self.params, self.ins, self.outs = of, name, params, ins, outs

    def __repr__(self):
        return "BB(%s)" % self.of


class _DiffIn:
    @staticmethod
    def lower(dr):
        class M(Module):
            def __init__(self):
                self.comb += dr.o.eq(dr.i_p)
        return M()


class _DiffOut:
    @staticmethod
    def lower(dr):
        class M(Module):
            def __init__(self):
                self.comb += [dr.o_p.eq(dr.i), dr.o_n.eq(~dr.i)]
        return M()


def _special_overrides():
    ov = {AsyncResetSynchronizer: DummyAsyncResetSynchronizer}
    try:
        from migen.genlib.io import DifferentialInput, DifferentialOutput
        ov[DifferentialInput] = _DiffIn
        ov[DifferentialOutput] = _DiffOut
    except ImportError:
        pass
    try:
        from litex.build.io import DifferentialInput as DI, DifferentialOutput as DO
        ov[DI] = _DiffIn
        ov[DO] = _DiffOut
    except ImportError:
        pass
    return ov


class FastSim:
    """inputs: {name: Signal} driven from outside; outputs: {name: Signal or
    expression} observed; domains: clock domains that can tick (default: all the
    fragment uses); with_rst: domains the fragment does not declare get a reset
    input when listed here."""

    def __init__(self, module, inputs, outputs, domains=None, with_rst=(), cone=False,
                 keep=(), clk_data=False):
        f = module if isinstance(module, _Fragment) else module.get_fragment()
        self.inputs = OrderedDict(inputs)
        outputs = OrderedDict(outputs)
        self.bbs = []
        extra_comb = []

        # -- specials
        # black boxes first: lowering may itself produce instances
        def strip():
            again = False
            for s in sorted(f.specials, key=lambda x: x.duid):
                if isinstance(s, Instance):
                    self._blackbox(s, extra_comb)
                    f.specials.discard(s)
                    again = True
                elif isinstance(s, Tristate):
                    o, oe = Signal(len(s.o)), Signal(len(s.oe))
                    extra_comb.extend([o.eq(s.o), oe.eq(s.oe)])
                    i = s.i if s.i is not None else Signal(len(s.o))
                    self.bbs.append(_BB("TRISTATE", "", {"target": s.target},
                                        {"O": o, "OE": oe}, {"I": i}))
                    f.specials.discard(s)
            return again
        strip()
        mems = [s for s in f.specials if isinstance(s, Memory)]
        ports = set(p for m in mems for p in m.ports)
        f.specials -= set(mems)
        f.specials -= ports
        f, _ = lower_specials(_special_overrides(), f)
        strip()
        more = [s for s in f.specials if isinstance(s, Memory)]
        mems += more
        ports |= set(p for m in more for p in m.ports)
        f.specials -= set(more)
        f.specials -= ports
        # memory ports created but whose memory was registered separately
        f.specials -= set(s for s in f.specials if isinstance(s, _MemoryPort))
        if f.specials:
            raise SimError("unhandled specials %r" % f.specials)
        self.mems = sorted(mems, key=lambda m: m.duid)
        self.memid = {m: i for i, m in enumerate(self.mems)}

        # -- outputs that are expressions
        self.outputs = OrderedDict()
        for n, e in outputs.items():
            if isinstance(e, Signal):
                self.outputs[n] = e
            else:
                p = Signal(value_bits_sign(e))
                extra_comb.append(p.eq(e))
                self.outputs[n] = p

        # -- memory ports
        self.memwrites = {}      # cd -> [(mem, port)]
        self.memreads = []       # comb (dat_r target, mem, adr signal)
        for m in self.mems:
            for p in m.ports:
                cd = p.clock.cd
                f.sync.setdefault(cd, [])
                if p.async_read:
                    self.memreads.append((p.dat_r, m, p.adr))
                elif p.dat_r is not None:
                    if p.mode == WRITE_FIRST:
                        adr_reg = Signal.like(p.adr)
                        st = adr_reg.eq(p.adr)
                        self.memreads.append((p.dat_r, m, adr_reg))
                    else:
                        rd = _MemRead(m, p.adr, p.dat_r)
                        if p.mode == NO_CHANGE and p.we is not None:
                            st = If(~p.we, rd)
                        else:
                            st = rd
                    f.sync[cd].append(st if p.re is None else If(p.re, st))
                if p.we is not None:
                    self.memwrites.setdefault(cd, []).append((m, p))

        # -- clock domains
        f.comb.extend(extra_comb)
        used = set(f.sync.keys()) | set(self.memwrites.keys())
        if domains is not None:
            used |= set(domains)
        from migen.fhdl.tools import list_clock_domains
        for cd in sorted(used | set(list_clock_domains(f))):
            if cd not in f.clock_domains:
                f.clock_domains.append(ClockDomain(name=cd, reset_less=cd not in with_rst))
        self.cds = f.clock_domains
        # domains whose clock is another domain's clock tick with it
        clkof = {cd.clk: cd.name for cd in f.clock_domains}
        self.alias = {}

        def scan(st):
            if isinstance(st, _Assign):
                if isinstance(st.l, Signal) and st.l in clkof:
                    if isinstance(st.r, ClockSignal):
                        self.alias[clkof[st.l]] = st.r.cd
                    elif isinstance(st.r, Signal) and st.r in clkof:
                        self.alias[clkof[st.l]] = clkof[st.r]
            elif isinstance(st, (list, tuple)):
                for x in st:
                    scan(x)
        scan(f.comb)
        insert_resets(f)
        self.f = f
        self.domains = sorted(set(f.sync.keys()) | set(self.memwrites) | set(domains or ()))
        for cd in self.cds:
            if cd.rst is not None and cd.name in with_rst and "rst_" + cd.name not in self.inputs:
                self.inputs["rst_" + cd.name] = cd.rst
        for self.W in (128, 1024):
            try:
                self._compile(cone, keep)
                break
            except WideError:
                if self.W == 1024:
                    raise

    def _blackbox(self, inst, extra_comb):
        ins, outs, params = OrderedDict(), OrderedDict(), OrderedDict()
        for it in inst.items:
            if isinstance(it, Instance.Input):
                p = Signal(value_bits_sign(it.expr)) if not isinstance(it.expr, int) else Signal(max(1, it.expr.bit_length()))
                extra_comb.append(p.eq(it.expr))
                ins[it.name] = p
            elif isinstance(it, Instance.Output):
                outs[it.name] = it.expr
            elif isinstance(it, Instance.Parameter):
                params[it.name] = it.value
            elif isinstance(it, Instance.InOut):
                params[it.name] = it.expr
        self.bbs.append(_BB(inst.of, inst.name_override, params, ins, outs))

    def bb(self, of, k=0):
        return [b for b in self.bbs if b.of == of][k]

    # ------------------------------------------------------------------ codegen
    def _sig(self, s):
        n = self.signame.get(s)
        if n is None:
            n = "s%d" % len(self.signame)
            self.signame[s] = n
            self.siglist.append(s)
        return n

    def _resolve(self, node):
        if isinstance(node, ClockSignal):
            return self.cds[node.cd].clk
        if isinstance(node, ResetSignal):
            r = self.cds[node.cd].rst
            if r is None:
                if node.allow_reset_less:
                    return C(0)
                # a domain this design does not declare: no reset
                return C(0)
            return r
        return node

    def _inputs_of(self, node, acc):
        """Signals read by an expression (memories are state)."""
        node = self._resolve(node)
        if isinstance(node, (int, bool)):
            return
        if isinstance(node, Constant):
            return
        if isinstance(node, Signal):
            acc.add(node)
        elif isinstance(node, _Operator):
            for o in node.operands:
                self._inputs_of(o, acc)
        elif isinstance(node, _Slice):
            self._inputs_of(node.value, acc)
        elif isinstance(node, _Part):
            self._inputs_of(node.value, acc)
            self._inputs_of(node.offset, acc)
        elif isinstance(node, Cat):
            for e in node.l:
                self._inputs_of(e, acc)
        elif isinstance(node, Replicate):
            self._inputs_of(node.v, acc)
        elif isinstance(node, _ArrayProxy):
            self._inputs_of(node.key, acc)
            for c in node.choices:
                self._inputs_of(c, acc)
        elif isinstance(node, _MemoryLocation):
            self._inputs_of(node.index, acc)
        else:
            raise SimError("input of %r" % node)

    def _lhs(self, node, targets, reads):
        node = self._resolve(node)
        if isinstance(node, Signal):
            targets.add(node)
        elif isinstance(node, Cat):
            for e in node.l:
                self._lhs(e, targets, reads)
        elif isinstance(node, _Slice):
            self._lhs(node.value, targets, reads)
        elif isinstance(node, _Part):
            self._lhs(node.value, targets, reads)
            self._inputs_of(node.offset, reads)
        elif isinstance(node, _ArrayProxy):
            self._inputs_of(node.key, reads)
            for c in node.choices:
                self._lhs(c, targets, reads)
        elif isinstance(node, _MemoryLocation):
            self._inputs_of(node.index, reads)
        else:
            raise SimError("lhs %r" % node)

    def _stmt_deps(self, s, targets, reads):
        if isinstance(s, _Assign):
            self._lhs(s.l, targets, reads)
            self._inputs_of(s.r, reads)
        elif isinstance(s, If):
            self._inputs_of(s.cond, reads)
            self._stmt_deps(s.t, targets, reads)
            self._stmt_deps(s.f, targets, reads)
        elif isinstance(s, Case):
            self._inputs_of(s.test, reads)
            for v in s.cases.values():
                self._stmt_deps(v, targets, reads)
        elif isinstance(s, _MemRead):
            targets.add(s.dst)
            reads.add(s.adr) if isinstance(s.adr, Signal) else self._inputs_of(s.adr, reads)
        elif isinstance(s, Display):
            pass
        else:
            for x in s:
                self._stmt_deps(x, targets, reads)

    # expressions: return (code, lo, hi); wrapped values have lo,hi = None
    def _ex(self, node, need=None):
        node = self._resolve(node)
        if isinstance(node, (bool, int)):
            node = C(int(node))
        if isinstance(node, Constant):
            return self._const(node.value)
        if isinstance(node, Signal):
            lo, hi = self._range(node)
            return self.cur(node), lo, hi
        if isinstance(node, _Operator):
            return self._op(node, need)
        if isinstance(node, _Slice):
            w = node.stop - node.start
            v = self._ex(node.value, need=node.stop)
            return self._bits(v, node.start, w)
        if isinstance(node, _Part):
            v = self._ex(node.value)
            off = self._ex(node.offset)
            c = "SHR(%s,%s)" % (self._w(v), self._i64(off))
            w = node.width
            if w > self.W - 2:
                raise WideError("wide part")
            return "(%s & %s)" % (c, self._mask(w)), 0, (1 << w) - 1
        if isinstance(node, Cat):
            shift = 0
            parts = []
            for e in node.l:
                nb = len(e)
                if need is not None and shift >= need:
                    break
                v = self._ex(e, need=nb)
                b = self._bits(v, 0, nb)
                parts.append((b, shift))
                shift += nb
            if not parts:
                return self._const(0)
            if shift > self.W - 2:
                raise WideError("Cat of %d bits" % shift)
            big = shift > 62
            code = " | ".join("((%s)%s << %d)" % ("i128" if big else "i64", b[0], sh) if sh else
                              ("(%s)%s" % ("i128" if big else "i64", b[0])) for b, sh in parts)
            return "(%s)" % code, 0, (1 << shift) - 1
        if isinstance(node, Replicate):
            nb = len(node.v)
            v = self._bits(self._ex(node.v, need=nb), 0, nb)
            mult = sum(1 << (i * nb) for i in range(node.n))
            tot = nb * node.n
            if tot > self.W - 2:
                raise WideError("wide replicate")
            k = self._const(mult)
            if tot > 62:
                return "((i128)%s * %s)" % (v[0], k[0]), 0, (1 << tot) - 1
            return "(%s * %s)" % (v[0], k[0]), 0, (1 << tot) - 1
        if isinstance(node, _ArrayProxy):
            key = self._ex(node.key)
            n = len(node.choices)
            vals = [self._ex(c) for c in node.choices]
            lo = min(v[1] for v in vals)
            hi = max(v[2] for v in vals)
            kv = self._tmp()
            code = vals[-1][0]
            big = not (lo >= -I63 and hi < I63)
            for i in range(n - 2, -1, -1):
                code = "(%s == %d ? (%s)%s : %s)" % (kv, i, "i128" if big else "i64", vals[i][0], code)
            # statement expression so the key is evaluated once
            return "({ i64 %s = %s; %s; })" % (kv, self._i64(key), code), lo, hi
        if isinstance(node, _MemoryLocation):
            return self._memrd(node.memory, self._ex(node.index))
        raise SimError("expr %r" % node)

    def _memrd(self, m, idx):
        i = self.memid[m]
        return ("RD(st->m%d,%s,%d)" % (i, self._i64(idx), m.depth)), 0, (1 << m.width) - 1

    def _tmp(self):
        self.ntmp += 1
        return "t%d" % self.ntmp

    def _const(self, v):
        if -I63 < v < I63:
            return "%dLL" % v if v >= 0 else "(%dLL)" % v, v, v
        neg = v < 0
        a = abs(v)
        if a >= 1 << (self.W - 1):
            raise WideError("const")
        ws, i = [], 0
        while a >> (64 * i):
            ws.append("((i128)(u128)0x%xULL << %d)" % ((a >> (64 * i)) & ((1 << 64) - 1), 64 * i))
            i += 1
        c = "(%s)" % " | ".join(ws)
        return ("(-%s)" % c if neg else c), v, v

    def _mask(self, w):
        return self._const((1 << w) - 1)[0]

    def _big(self, v):
        return v[1] is None or not (v[1] >= -I63 and v[2] < I63)

    def _w(self, v):
        return "((i128)%s)" % v[0]

    def _i64(self, v):
        if v[1] is None or v[1] < -I63 or v[2] >= I63:
            raise SimError("index too wide")
        return "((i64)%s)" % v[0]

    def _bits(self, v, start, w):
        if v[1] is not None and start == 0 and v[1] >= 0 and v[2] < (1 << w):
            return v
        if w > self.W - 2:
            raise WideError("wide bits %d" % w)
        if start + w > self.W - 1:
            raise WideError("bits beyond")
        code = v[0]
        if start:
            code = "(%s >> %d)" % (code, start) if self._big(v) or start < 64 else \
                "(((i128)%s) >> %d)" % (code, start)
        return "(%s & %s)" % (code, self._mask(w)), 0, (1 << w) - 1

    def _range(self, s):
        if s.signed:
            return -(1 << (s.nbits - 1)), (1 << (s.nbits - 1)) - 1
        return 0, (1 << s.nbits) - 1

    def _fit(self, code, lo, hi, need):
        """pick the computation type by range"""
        if -(1 << (self.W - 1)) <= lo and hi < 1 << (self.W - 1):
            return code, lo, hi
        if need is not None and need <= self.W - 2:
            return code, None, None
        raise WideError("expression exceeds %d bits" % (self.W - 1))

    def _op(self, node, need):
        op, ops = node.op, node.operands
        if op == "~":
            a = self._ex(ops[0], need)
            if a[1] is None:
                return "(~%s)" % a[0], None, None
            return "(~%s)" % a[0], ~a[2], ~a[1]
        if op == "-" and len(ops) == 1:
            a = self._ex(ops[0], need)
            if a[1] is None:
                return "(-%s)" % a[0], None, None
            return self._arith("-", ("0LL", 0, 0), a, -a[2], -a[1], need)
        if op == "m":
            c = self._ex(ops[0])
            a, b = self._ex(ops[1], need), self._ex(ops[2], need)
            if a[1] is None or b[1] is None:
                return "(%s ? %s : %s)" % (c[0], self._w(a), self._w(b)), None, None
            return "(%s ? %s : %s)" % (c[0], a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        if op in ("<", "<=", "==", "!=", ">", ">="):
            a, b = self._ex(ops[0]), self._ex(ops[1])
            return "((i64)(%s %s %s))" % (a[0], op, b[0]), 0, 1
        if op in ("+", "-", "*"):
            a, b = self._ex(ops[0], need), self._ex(ops[1], need)
            if a[1] is None or b[1] is None:
                return "(%s %s %s)" % (self._w(a), op, self._w(b)), None, None
            if op == "+":
                lo, hi = a[1] + b[1], a[2] + b[2]
            elif op == "-":
                lo, hi = a[1] - b[2], a[2] - b[1]
            else:
                ps = [x * y for x in (a[1], a[2]) for y in (b[1], b[2])]
                lo, hi = min(ps), max(ps)
            return self._arith(op, a, b, lo, hi, need)
        if op in ("&", "|", "^"):
            a, b = self._ex(ops[0], need), self._ex(ops[1], need)
            if a[1] is None or b[1] is None:
                return "(%s %s %s)" % (self._w(a), op, self._w(b)), None, None
            if a[1] >= 0 and b[1] >= 0:
                if op == "&":
                    lo, hi = 0, min(a[2], b[2])
                else:
                    lo, hi = 0, (1 << max(a[2].bit_length(), b[2].bit_length())) - 1
            elif op == "&" and (a[1] >= 0 or b[1] >= 0):
                lo, hi = 0, a[2] if a[1] >= 0 else b[2]
                if a[1] >= 0 and b[1] >= 0:
                    hi = min(a[2], b[2])
            else:
                nb = max(abs(x).bit_length() for x in (a[1], a[2], b[1], b[2]))
                lo, hi = -(1 << nb), (1 << nb) - 1
            big = self._big(a) or self._big(b)
            if big:
                return "(%s %s %s)" % (self._w(a), op, self._w(b)), lo, hi
            return "(%s %s %s)" % (a[0], op, b[0]), lo, hi
        if op == ">>>":
            a, b = self._ex(ops[0]), self._ex(ops[1])
            if a[1] is None:
                raise SimError(">> of wrapped")
            lo, hi = min(a[1], -1 if a[1] < 0 else 0), max(a[2], 0)
            if self._big(a):
                return "SHR(%s,%s)" % (a[0], self._i64(b)), lo, hi
            return "SHR64(%s,%s)" % (a[0], self._i64(b)), lo, hi
        if op == "<<<":
            a, b = self._ex(ops[0], need), self._ex(ops[1])
            if a[1] is None:
                return "SHL(%s,%s)" % (a[0], self._i64(b)), None, None
            mx = max(b[2], 0)
            lo, hi = min(a[1] << mx, a[1], 0), max(a[2] << mx, a[2], 0)
            return self._fit("SHL(%s,%s)" % (self._w(a), self._i64(b)), lo, hi, need)
        raise SimError("op %s" % op)

    def _arith(self, op, a, b, lo, hi, need):
        if lo >= -I63 and hi < I63 and not self._big(a) and not self._big(b):
            return "(%s %s %s)" % (a[0], op, b[0]), lo, hi
        return self._fit("(%s %s %s)" % (self._w(a), op, self._w(b)), lo, hi, need)

    def _trunc(self, v, nbits, signed):
        """value truncated to a signal's type"""
        lo, hi = (-(1 << (nbits - 1)), (1 << (nbits - 1)) - 1) if signed else (0, (1 << nbits) - 1)
        if v[1] is not None and v[1] >= lo and v[2] <= hi:
            return v[0]
        if nbits > self.W - 2:
            raise WideError("assignment to %d bits" % nbits)
        if signed:
            return "SX((i128)%s,%d)" % (v[0], nbits)
        return "(%s & %s)" % (v[0], self._mask(nbits))

    # statements. self.cur / self.nxt map a signal to its C lvalue
    def _as(self, lhs, v, out, ind):
        """assign evaluated (code,lo,hi) to lhs"""
        lhs = self._resolve(lhs)
        if isinstance(lhs, Signal):
            out.append("%s%s = %s;" % (ind, self.nxt(lhs), self._trunc(v, lhs.nbits, lhs.signed)))
        elif isinstance(lhs, Cat):
            t = self._tmp()
            tot = sum(len(e) for e in lhs.l)
            if tot > self.W - 2:
                raise WideError("LHS Cat too wide")
            out.append("%s{ i128 %s = %s;" % (ind, t, v[0]))
            sh = 0
            for e in lhs.l:
                nb = len(e)
                self._as(e, ("((%s >> %d) & %s)" % (t, sh, self._mask(nb)), 0, (1 << nb) - 1), out, ind + " ")
                sh += nb
            out.append("%s}" % ind)
        elif isinstance(lhs, _Slice):
            w = lhs.stop - lhs.start
            cv = self._exnext(lhs.value)
            full = cv[2].bit_length() if cv[1] >= 0 else self.W - 2
            m = ((1 << w) - 1) << lhs.start
            allm = (1 << max(full, lhs.stop)) - 1
            code = "((((i128)%s) & %s) | (((i128)(%s) & %s) << %d))" % (
                cv[0], self._const(allm & ~m)[0], v[0], self._mask(w), lhs.start)
            self._as(lhs.value, (code, 0, allm), out, ind)
        elif isinstance(lhs, _Part):
            cv = self._exnext(lhs.value)
            off = self._exnext(lhs.offset)
            t = self._tmp()
            out.append("%s{ i64 %s = %s;" % (ind, t, self._i64(off)))
            code = "((((i128)%s) & ~SHL((i128)%s,%s)) | SHL((i128)((%s) & %s),%s))" % (
                cv[0], self._mask(lhs.width), t, v[0], self._mask(lhs.width), t)
            self._as(lhs.value, (code, None, None), out, ind + " ")
            out.append("%s}" % ind)
        elif isinstance(lhs, _ArrayProxy):
            key = self._ex(lhs.key)
            t, tv = self._tmp(), self._tmp()
            n = len(lhs.choices)
            out.append("%s{ i64 %s = %s; i128 %s = %s; if (%s >= %d) %s = %d; switch (%s) {" % (
                ind, t, self._i64(key), tv, v[0], t, n - 1, t, n - 1, t))
            for i, c in enumerate(lhs.choices):
                out.append("%s case %d:" % (ind, i))
                self._as(c, (tv, v[1], v[2]), out, ind + "  ")
                out.append("%s  break;" % ind)
            out.append("%s}}" % ind)
        else:
            raise SimError("assign %r" % lhs)

    def _exnext(self, node):
        save = self.cur
        self.cur = self.nxt
        try:
            return self._ex(node)
        finally:
            self.cur = save

    def _st(self, s, out, ind):
        if isinstance(s, _Assign):
            need = len(s.l)
            v = self._ex(s.r, need=need)
            self._as(s.l, v, out, ind)
        elif isinstance(s, If):
            nb = len(s.cond) if isinstance(s.cond, _Value) else None
            c = self._ex(s.cond)
            cc = c[0]
            if nb is not None and not (c[1] >= 0 and c[2] < (1 << nb)):
                cc = "((i128)%s & %s)" % (cc, self._mask(nb))
            out.append("%sif (%s) {" % (ind, cc))
            self._st(s.t, out, ind + " ")
            if s.f:
                out.append("%s} else {" % ind)
                self._st(s.f, out, ind + " ")
            out.append("%s}" % ind)
        elif isinstance(s, Case):
            nb, sg = value_bits_sign(s.test)
            v = self._trunc(self._ex(s.test), nb, sg)
            t = self._tmp()
            out.append("%s{ i64 %s = %s; switch (%s) {" % (ind, t, v, t))
            seen = set()
            for k, body in s.cases.items():
                if isinstance(k, Constant):
                    if k.value in seen:
                        continue
                    seen.add(k.value)
                    out.append("%s case %dLL:" % (ind, k.value))
                elif k == "default":
                    out.append("%s default:" % ind)
                else:
                    raise SimError("case key %r" % k)
                self._st(body, out, ind + "  ")
                out.append("%s  break;" % ind)
            out.append("%s}}" % ind)
        elif isinstance(s, _MemRead):
            v = self._memrd(s.mem, self._ex(s.adr))
            self._as(s.dst, v, out, ind)
        elif isinstance(s, Display):
            pass
        else:
            for x in s:
                self._st(x, out, ind)

    # ------------------------------------------------------------------ compile
    def _compile(self, cone, keep):
        f = self.f
        self.signame, self.siglist = {}, []
        self.ntmp = 0
        inset = set(self.inputs.values())

        # comb groups
        comb = list(f.comb)
        groups = []
        for targets, stmts in group_by_targets(comb):
            groups.append((set(targets), list(stmts)))
        for dst, m, adr in self.memreads:
            # a memory read drives dat_r (a signal, or a slice of one)
            groups.append((None, _CombRead(dst, m, adr)))
        G = []
        for targets, stmts in groups:
            if targets is None:
                tg, rd = set(), set()
                self._lhs(stmts.dst, tg, rd)
                self._inputs_of(stmts.adr, rd)
                G.append((tg, rd, stmts))
            else:
                tg, rd = set(), set()
                self._stmt_deps(stmts, tg, rd)
                G.append((tg, rd, stmts))
        driver = {}
        for i, (tg, rd, st) in enumerate(G):
            for t in tg:
                if t in driver:
                    raise SimError("signal %r driven twice" % t)
                driver[t] = i
        for n, s in self.inputs.items():
            if s in driver:
                raise SimError("input %s is driven by the design" % n)
        syncdrv = {}
        S = {}
        for cd, stmts in f.sync.items():
            tg, rd = set(), set()
            self._stmt_deps(stmts, tg, rd)
            S[cd] = (tg, rd, stmts)
            for t in tg:
                if t in syncdrv and syncdrv[t] != cd:
                    raise SimError("signal %r driven from %s and %s" % (t, syncdrv[t], cd))
                syncdrv[t] = cd
                if t in driver:
                    raise SimError("signal %r driven by comb and sync" % t)
                if t in inset:
                    raise SimError("input %r is driven by the design" % t)
        # order
        order = self._order(G, driver)
        regs = sorted(syncdrv, key=lambda s: s.duid)
        self.regs = regs
        for s in regs:
            self._sig(s)
        combsigs = set(driver)
        allsigs = set(combsigs)
        for tg, rd, st in G:
            allsigs |= rd
        for cd, (tg, rd, st) in S.items():
            allsigs |= rd | tg
        for cd in f.clock_domains:
            allsigs.add(cd.clk)
            if cd.rst is not None:
                allsigs.add(cd.rst)
        for s in list(self.inputs.values()) + list(self.outputs.values()) + list(keep):
            allsigs.add(s)
        for cd, ps in self.memwrites.items():
            for m, p in ps:
                for e in (p.adr, p.we, p.dat_w):
                    self._inputs_of(e, allsigs)
        for s in sorted(allsigs, key=lambda s: s.duid):
            self._sig(s)
        self.driver, self.syncdrv = driver, syncdrv

        L = []
        A = L.append
        A("#include <stdint.h>\n#include <string.h>\n#include <stdlib.h>")
        wide = self.W > 128
        if wide:
            A("typedef int64_t i64; typedef _BitInt(%d) i128; typedef unsigned _BitInt(%d) u128;" % (self.W, self.W))
        else:
            A("typedef int64_t i64; typedef __int128 i128; typedef unsigned __int128 u128;")
        A("""
static inline i128 SHR(i128 a,i64 n){ if(n<0) return 0; if(n>WB-2) return a<0?-1:0; return a>>n; }
static inline i64 SHR64(i64 a,i64 n){ if(n<0) return 0; if(n>62) return a<0?-1:0; return a>>n; }
static inline i128 SHL(i128 a,i64 n){ if(n<0||n>WB-2) return 0; return (i128)((u128)a<<n); }
static inline i128 SX(i128 a,int n){ int k=WB-n; return ((i128)((u128)a<<k))>>k; }
#define RD(m,i,d) ((m)[(i)>=(d)?(d)-1:(i)])
""".replace("WB", str(self.W)))
        A("typedef struct {")
        regset = set(regs)
        for s in regs:
            A(" %s %s;" % (_ctype(s.nbits, s.signed), self.signame[s]))
        for i, m in enumerate(self.mems):
            A(" %s m%d[%d];" % (_ctype(m.width, False), i, m.depth))
        A(" char endstate;")
        for s in self.siglist:
            if s not in regset:
                A(" %s %s __attribute__((aligned(16)));" % (_ctype(s.nbits, s.signed), self.signame[s]))
        A("} S;")
        A("unsigned long sim_size(void){return sizeof(S);}")
        A("unsigned long sim_statesize(void){return __builtin_offsetof(S,endstate);}")
        # init
        A("void sim_init(S*st){ memset(st,0,sizeof(S));")
        for s in self.siglist:
            if s.reset.value:
                A(" st->%s = %s;" % (self.signame[s], self._trunc(self._const(s.reset.value), s.nbits, s.signed)))
        for i, m in enumerate(self.mems):
            for j, v in enumerate(m.init or []):
                if v:
                    A(" st->m%d[%d] = %s;" % (i, j, self._const(v & ((1 << m.width) - 1))[0]))
        A("}")
        # comb
        A("void sim_comb(S*st){")
        for comp, cyc in order:
            if cyc:
                A(" for(int it=0; it<64; it++){ int chg=0;")
            for gi in comp:
                tg, rd, st = G[gi]
                loc = {t: "n_" + self.signame[t] for t in tg}
                self.cur = lambda s: "st->" + self._sig(s)
                self.nxt = lambda s, loc=loc: loc[s] if s in loc else "st->" + self._sig(s)
                A(" {")
                for t in sorted(tg, key=lambda s: s.duid):
                    A("  %s %s = %s;" % (_ctype(t.nbits, t.signed), loc[t],
                                         self._trunc(self._const(t.reset.value), t.nbits, t.signed)))
                if isinstance(st, _CombRead):
                    v = self._memrd(st.mem, self._ex(st.adr))
                    self._as(st.dst, v, L, "  ")
                else:
                    self._st(st, L, "  ")
                for t in sorted(tg, key=lambda s: s.duid):
                    n = self.signame[t]
                    if cyc:
                        A("  if (st->%s != %s) { chg=1; st->%s = %s; }" % (n, loc[t], n, loc[t]))
                    else:
                        A("  st->%s = %s;" % (n, loc[t]))
                A(" }")
            if cyc:
                A(" if(!chg) break; }")
        A("}")
        # sync
        self.dombit = {cd: i for i, cd in enumerate(self.domains)}
        A("void sim_tick(S*st, unsigned mask){")
        A(" S *cu = st;")
        for s in regs:
            A(" %s n_%s = st->%s;" % (_ctype(s.nbits, s.signed), self.signame[s], self.signame[s]))
        # memory writes are collected with pre-edge values
        wr = []
        k = 0
        for cd in self.domains:
            A(" if (mask & %d) {" % (1 << self.dombit[cd]))
            if cd in S:
                self.cur = lambda s: "st->" + self._sig(s)
                self.nxt = lambda s: ("n_" + self.signame[s]) if s in regset else "st->" + self._sig(s)
                self._st(S[cd][2], L, "  ")
            A(" }")
        for cd in self.domains:
            for m, p in self.memwrites.get(cd, []):
                self.cur = lambda s: "st->" + self._sig(s)
                n = m.width // (p.we_granularity or m.width)
                g = p.we_granularity or m.width
                i = self.memid[m]
                adr = self._i64(self._ex(p.adr))
                dat = self._ex(p.dat_w)
                we = self._ex(p.we)
                wr.append("if (mask & %d) { i64 a = %s; if (a >= %d) a = %d; i128 d = %s; i64 we = %s;"
                          % (1 << self.dombit[cd], adr, m.depth, m.depth - 1, dat[0], we[0]))
                if n == 1:
                    wr.append(" if (we & %s) st->m%d[a] = d & %s; }" % (self._mask(len(p.we)), i, self._mask(m.width)))
                else:
                    for q in range(n):
                        mm = self._const(((1 << g) - 1) << (q * g))[0]
                        wr.append(" if (we & %d) st->m%d[a] = (st->m%d[a] & ~(i128)%s) | (d & %s);" % (1 << q, i, i, mm, mm))
                    wr.append(" }")
        for w in wr:
            A(" " + w)
        for s in regs:
            A(" st->%s = n_%s;" % (self.signame[s], self.signame[s]))
        A("}")
        # accessors
        self.inidx = {n: i for i, n in enumerate(self.inputs)}
        self.outidx = {n: i for i, n in enumerate(self.outputs)}
        A("void sim_setin(S*st, const i64*v){")
        for n, s in self.inputs.items():
            sg = self._sig(s)
            A(" st->%s = %s;" % (sg, self._trunc(("v[%d]" % self.inidx[n], -I63, I63 - 1), s.nbits, s.signed)
                                 if s.nbits < 64 else "v[%d]" % self.inidx[n]))
        A("}")
        A("void sim_getout(S*st, i64*v){")
        for n, s in self.outputs.items():
            A(" v[%d] = (i64)st->%s;" % (self.outidx[n], self._sig(s)))
        A("}")
        A("void sim_poke(S*st,int k,i64 lo,i64 hi){ i128 v=((i128)hi<<64)|(i128)(u128)(uint64_t)lo; (void)v; switch(k){")
        for k, s in enumerate(self.siglist):
            A(" case %d: st->%s = v; break;" % (k, self.signame[s]))
        A("}}")
        A("void sim_peek(S*st,int k,i64*o){ i128 v=0; switch(k){")
        for k, s in enumerate(self.siglist):
            A(" case %d: v = st->%s; break;" % (k, self.signame[s]))
        A("} o[0]=(i64)v; o[1]=(i64)(v>>64); }")
        A("void sim_mpeek(S*st,int k,int a,i64*o){ i128 v=0; switch(k){")
        for k, m in enumerate(self.mems):
            A(" case %d: v = st->m%d[a]; break;" % (k, k))
        A("} o[0]=(i64)v; o[1]=(i64)(v>>64); }")
        A("void sim_mpoke(S*st,int k,int a,i64 lo,i64 hi){ i128 v=((i128)hi<<64)|(i128)(u128)(uint64_t)lo; (void)v; switch(k){")
        for k, m in enumerate(self.mems):
            A(" case %d: st->m%d[a] = v; break;" % (k, k))
        A("}}")
        A("""
void sim_cycle(S*st,const i64*in,i64*out,unsigned mask){ sim_setin(st,in); sim_comb(st); sim_getout(st,out); sim_tick(st,mask);}
void sim_settle(S*st,const i64*in,i64*out){ sim_setin(st,in); sim_comb(st); sim_getout(st,out);}
void sim_run(S*st,const i64*in,i64*out,long n,int ni,int no,const unsigned*mask,unsigned m){
  for(long i=0;i<n;i++){ sim_setin(st,in+i*ni); sim_comb(st); sim_getout(st,out+i*no); sim_tick(st,mask?mask[i]:m);} }
void sim_expand(const char*states,long n,const i64*ins,long m,int ni,int no,const unsigned*mask,char*nx,i64*out){
  S*st=malloc(sizeof(S)); unsigned long z=sim_statesize(); sim_init(st);
  for(long i=0;i<n;i++) for(long j=0;j<m;j++){
    memcpy(st,states+i*z,z); sim_setin(st,ins+j*ni); sim_comb(st); sim_getout(st,out+(i*m+j)*no); sim_tick(st,mask[j]);
    memcpy(nx+(i*m+j)*z,st,z);}
  free(st);}
""")
        self.nin, self.nout = len(self.inputs), len(self.outputs)
        src = "\n".join(L)
        self.csrc = src
        key = hashlib.sha1(src.encode()).hexdigest()[:20]
        d = os.path.join(BUILD, "sim")
        os.makedirs(d, exist_ok=True)
        so = os.path.join(d, key + ".so")
        if not os.path.exists(so):
            fd, c = tempfile.mkstemp(suffix=".c", dir=d)
            os.write(fd, src.encode())
            os.close(fd)
            tmp = c[:-2] + ".so"
            opt = "-O1" if len(src) > 400000 else "-O2"
            r = subprocess.run(["clang" if wide else "gcc", opt, "-fwrapv", "-w", "-shared", "-fPIC", "-o", tmp, c],
                               capture_output=True, text=True)
            if r.returncode:
                raise SimError("gcc: " + r.stderr[:2000] + " in " + c)
            os.unlink(c)
            os.replace(tmp, so)
        lib = ctypes.CDLL(so)
        self.lib = lib
        P = ctypes.POINTER(ctypes.c_int64)
        lib.sim_size.restype = ctypes.c_ulong
        lib.sim_statesize.restype = ctypes.c_ulong
        self.size, self.statesize = lib.sim_size(), lib.sim_statesize()
        self.buf = ctypes.create_string_buffer(self.size + 64)
        addr = ctypes.addressof(self.buf)
        self.st = (addr + 31) & ~31
        vp = ctypes.c_void_p
        lib.sim_init.argtypes = [vp]
        lib.sim_comb.argtypes = [vp]
        lib.sim_tick.argtypes = [vp, ctypes.c_uint]
        lib.sim_cycle.argtypes = [vp, vp, vp, ctypes.c_uint]
        lib.sim_settle.argtypes = [vp, vp, vp]
        lib.sim_peek.argtypes = [vp, ctypes.c_int, vp]
        lib.sim_poke.argtypes = [vp, ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        lib.sim_mpeek.argtypes = [vp, ctypes.c_int, ctypes.c_int, vp]
        lib.sim_mpoke.argtypes = [vp, ctypes.c_int, ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        lib.sim_run.argtypes = [vp, vp, vp, ctypes.c_long, ctypes.c_int, ctypes.c_int, vp, ctypes.c_uint]
        lib.sim_expand.argtypes = [vp, ctypes.c_long, vp, ctypes.c_long, ctypes.c_int, ctypes.c_int, vp, vp, vp]
        self._in = (ctypes.c_int64 * max(1, self.nin))()
        self._out = (ctypes.c_int64 * max(1, self.nout))()
        self._inp, self._outp = ctypes.addressof(self._in), ctypes.addressof(self._out)
        self._pk = (ctypes.c_int64 * 2)()
        self.sigidx = {s: k for k, s in enumerate(self.siglist)}
        self.fullmask = (1 << len(self.domains)) - 1
        self.reset()

    def _order(self, G, driver):
        n = len(G)
        succ = [set() for _ in range(n)]      # edge i -> j : j reads what i drives
        selfl = [False] * n
        pred = [set() for _ in range(n)]
        for j, (tg, rd, st) in enumerate(G):
            for r in rd:
                i = driver.get(r)
                if i is None:
                    continue
                if i == j:
                    selfl[j] = True
                else:
                    succ[i].add(j)
                    pred[j].add(i)
        # Tarjan, iterative
        idx, low, on, stack, comps, ctr = {}, {}, set(), [], [], [0]
        for root in range(n):
            if root in idx:
                continue
            work = [(root, iter(sorted(succ[root])))]
            idx[root] = low[root] = ctr[0]; ctr[0] += 1
            stack.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = ctr[0]; ctr[0] += 1
                        stack.append(w); on.add(w)
                        work.append((w, iter(sorted(succ[w]))))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = stack.pop(); on.discard(w); c.append(w)
                        if w == v:
                            break
                    comps.append(sorted(c))
        comps.reverse()
        return [(c, len(c) > 1 or selfl[c[0]]) for c in comps]

    # ------------------------------------------------------------------ run-time
    def reset(self):
        self.lib.sim_init(self.st)
        for i, s in enumerate(self.inputs.values()):
            self._in[i] = s.reset.value
        self.settled = False
        return self

    def _mask_of(self, doms):
        if doms is None:
            return self.fullmask
        if isinstance(doms, str):
            doms = [doms]
        m = 0
        for d in self.dombit:
            root = d
            while root in self.alias and root not in doms:
                root = self.alias[root]
            if root in doms:
                m |= 1 << self.dombit[d]
        return m

    def set(self, **kw):
        for k, v in kw.items():
            self._in[self.inidx[k]] = int(v)
        self.settled = False

    def settle(self):
        self.lib.sim_settle(self.st, self._inp, self._outp)
        self.settled = True

    def get(self, name):
        if not self.settled:
            self.settle()
        return self._out[self.outidx[name]]

    def outs(self):
        if not self.settled:
            self.settle()
        return list(self._out[:self.nout])

    def outd(self):
        if not self.settled:
            self.settle()
        return {n: self._out[i] for n, i in self.outidx.items()}

    def tick(self, doms=None):
        if not self.settled:
            self.settle()
        self.lib.sim_tick(self.st, self._mask_of(doms))
        self.settled = False

    def cycle(self, doms=None, **kw):
        """set inputs, settle, observe, tick"""
        for k, v in kw.items():
            self._in[self.inidx[k]] = int(v)
        self.lib.sim_cycle(self.st, self._inp, self._outp, self._mask_of(doms))
        self.settled = False
        return {n: self._out[i] for n, i in self.outidx.items()}

    def peek(self, s):
        self.lib.sim_peek(self.st, self.sigidx[s], ctypes.addressof(self._pk))
        lo, hi = self._pk[0], self._pk[1]
        return (hi << 64) | (lo & ((1 << 64) - 1))

    def poke(self, s, v):
        lo = v & ((1 << 64) - 1)
        lo = lo - (1 << 64) if lo >= I63 else lo
        self.lib.sim_poke(self.st, self.sigidx[s], lo, v >> 64)

    def mpeek(self, mem, a):
        self.lib.sim_mpeek(self.st, self.memid[mem], a, ctypes.addressof(self._pk))
        lo, hi = self._pk[0], self._pk[1]
        return (hi << 64) | (lo & ((1 << 64) - 1))

    def mpoke(self, mem, a, v):
        lo = v & ((1 << 64) - 1)
        lo = lo - (1 << 64) if lo >= I63 else lo
        self.lib.sim_mpoke(self.st, self.memid[mem], a, lo, v >> 64)

    def run(self, ins, doms=None, masks=None):
        """open loop: ins [n, nin] int64 (column order = self.inputs) -> outs [n, nout]
        (values seen before each clock edge)"""
        ins = np.ascontiguousarray(ins, dtype=np.int64)
        if ins.ndim != 2 or ins.shape[1] != self.nin:
            raise SimError("bad input matrix")
        out = np.zeros((ins.shape[0], self.nout), dtype=np.int64)
        mp = None
        if masks is not None:
            masks = np.ascontiguousarray(masks, dtype=np.uint32)
            mp = masks.ctypes.data
        self.lib.sim_run(self.st, ins.ctypes.data, out.ctypes.data, ins.shape[0], self.nin,
                         self.nout, mp, self._mask_of(doms))
        self.settled = False
        return out

    def state(self):
        return ctypes.string_at(self.st, self.statesize)

    def load(self, b):
        ctypes.memmove(self.st, b, self.statesize)
        self.settled = False

    def expand(self, states, ins, masks):
        """states: bytes (n*statesize), ins [m,nin], masks [m] ->
        (next states bytes [n*m], outs [n,m,nout])"""
        n = len(states) // self.statesize
        ins = np.ascontiguousarray(ins, dtype=np.int64)
        masks = np.ascontiguousarray(masks, dtype=np.uint32)
        m = ins.shape[0]
        nx = ctypes.create_string_buffer(n * m * self.statesize)
        out = np.zeros((n, m, self.nout), dtype=np.int64)
        self.lib.sim_expand(states, n, ins.ctypes.data, m, self.nin, self.nout,
                            masks.ctypes.data, ctypes.addressof(nx), out.ctypes.data)
        return nx.raw, out

    def lts(self, ins, masks=None, limit=2000000, start=None):
        """Reachable Mealy machine from the reset state (or `start`) under the given
        input alphabet: (next[s][i], outs[s,i,:]).  When about `limit` states are
        exceeded the states not expanded have no outgoing transitions (next is shorter
        than the number of states: see `truncated`)."""
        ins = np.ascontiguousarray(ins, dtype=np.int64)
        m = ins.shape[0]
        if masks is None:
            masks = np.full(m, self.fullmask, dtype=np.uint32)
        if start is None:
            self.reset()
            start = self.state()
        z = self.statesize
        ids = {start: 0}
        frontier = [start]
        nxt, outs = [], []
        self.truncated = False
        while frontier and not self.truncated:
            nf = []
            for b in range(0, len(frontier), 2000):
                if len(ids) > limit:
                    self.truncated = True
                    break
                chunk = frontier[b:b + 2000]
                raw, out = self.expand(b"".join(chunk), ins, masks)
                outs.append(out)
                for k in range(len(chunk) * m):
                    t = raw[k * z:(k + 1) * z]
                    i = ids.get(t)
                    if i is None:
                        i = len(ids)
                        ids[t] = i
                        nf.append(t)
                    nxt.append(i)
            frontier = nf
        nx = np.array(nxt, dtype=np.int64).reshape(-1, m)
        return nx, np.concatenate(outs, axis=0)


class _MemRead(_Statement):
    def __init__(self, mem, adr, dst):
        self.mem, self.adr, self.dst = mem, adr, dst


class _CombRead:
    def __init__(self, dst, mem, adr):
        self.dst, self.mem, self.adr = dst, mem, adr
