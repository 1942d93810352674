"""Wishbone Classic signature with amaranth_soc's member names."""

from amaranth.lib import wiring
from amaranth.lib.wiring import In, Out


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset()):
        self.addr_width = addr_width
        self.data_width = data_width
        self.granularity = data_width if granularity is None else granularity
        if features:
            raise NotImplementedError("optional Wishbone features")
        super().__init__({
            "adr": Out(addr_width),
            "dat_w": Out(data_width),
            "dat_r": In(data_width),
            "sel": Out(data_width // self.granularity),
            "cyc": Out(1),
            "stb": Out(1),
            "we": Out(1),
            "ack": In(1),
        })

    def __eq__(self, other):
        return (isinstance(other, Signature)
                and self.addr_width == other.addr_width
                and self.data_width == other.data_width
                and self.granularity == other.granularity)
