"""Putting a module's registers on a bus, as an SoC does."""
from migen import Module
from litex.soc.interconnect import csr_bus


class Regs(Module):
    """module + register bank on a bus, 32 bits wide unless told otherwise; .addr[name] word address (name + k for the k-th
    word of a register that spans several, least significant 0)"""
    def __init__(self, dut, csrs=None, width=32):
        self.submodules.dut = dut
        self.bus = csr_bus.Interface(data_width=width, address_width=14)
        self.submodules.bank = csr_bus.CSRBank(csrs if csrs is not None else dut.get_csrs(), address=0, bus=self.bus)

    def finish(self):
        """after get_fragment: register name -> word address"""
        self.addr = {}
        for i, c in enumerate(self.bank.simple_csrs):
            n = c.name
            self.addr[n] = i
        return self.addr

    def ins(self):
        return {"b_adr": self.bus.adr, "b_we": self.bus.we, "b_dat": self.bus.dat_w}


def inst_port(frag, of, port, k=0):
    """the expression on a port of the k-th instance of a vendor primitive"""
    from migen.fhdl.specials import Instance
    ii = [s for s in sorted(frag.specials, key=lambda x: x.duid) if isinstance(s, Instance) and s.of == of]
    for it in ii[k].items:
        if isinstance(it, (Instance.Output, Instance.Input)) and it.name == port:
            return it.expr
    raise KeyError(port)
