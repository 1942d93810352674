"""Wishbone Classic signature with amaranth_soc's member names."""

from amaranth.hdl import Module, Signal
from amaranth.lib import wiring
from amaranth.lib.wiring import In, Out


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset()):
        self.addr_width = addr_width
        self.data_width = data_width
        self.granularity = data_width if granularity is None else granularity
        if features:
            raise NotImplementedError("optional Wishbone features")
        super().__init__({
            "adr": Out(addr_width),
            "dat_w": Out(data_width),
            "dat_r": In(data_width),
            "sel": Out(data_width // self.granularity),
            "cyc": Out(1),
            "stb": Out(1),
            "we": Out(1),
            "ack": In(1),
        })

    def __eq__(self, other):
        return (isinstance(other, Signature)
                and self.addr_width == other.addr_width
                and self.data_width == other.data_width
                and self.granularity == other.granularity)


class Decoder(wiring.Component):
    """Windows in the order they are added, each as large as its memory map
    says and aligned to its size.  A narrower subordinate sits on the lowest
    byte lane and takes one word address per register (sparse)."""

    def __init__(self, *, addr_width, data_width, granularity=None, alignment=0):
        super().__init__({"bus": In(Signature(addr_width=addr_width, data_width=data_width,
                                              granularity=granularity))})
        self.bus.memory_map = _Map()
        self.alignment, self.subs, self.end = alignment, [], 0

    def add(self, sub_bus, *, sparse=False):
        bits = max(self.alignment, sub_bus.memory_map.addr_width)
        start = -(-self.end // (1 << bits)) << bits
        self.end = start + (1 << bits)
        self.subs.append((sub_bus, start, bits))

    def elaborate(self, platform):
        m = Module()
        for sub, start, bits in self.subs:
            here = Signal()
            m.d.comb += [
                here.eq(self.bus.adr >> (bits - 2) == start >> bits),
                sub.adr.eq(self.bus.adr), sub.dat_w.eq(self.bus.dat_w), sub.sel.eq(self.bus.sel),
                sub.we.eq(self.bus.we), sub.stb.eq(self.bus.stb), sub.cyc.eq(self.bus.cyc & here),
            ]
            with m.If(here):
                m.d.comb += [self.bus.dat_r.eq(sub.dat_r), self.bus.ack.eq(sub.ack)]
        return m


class _Map:
    def all_resources(self):
        return []
