"""Runs short programs on sentinel.top.Top with Amaranth's simulator."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from amaranth.sim import Simulator

M32 = 0xFFFFFFFF
MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP = 0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344
ECALL, MRET = 0x73, 0x30200073


def R(f7, f3, rd, a, b): return f7 << 25 | b << 20 | a << 15 | f3 << 12 | rd << 7 | 0x33
def I(op, f3, rd, a, imm): return (imm & 0xFFF) << 20 | a << 15 | f3 << 12 | rd << 7 | op
def S(f3, b, a, imm): return (imm >> 5 & 127) << 25 | b << 20 | a << 15 | f3 << 12 | (imm & 31) << 7 | 0x23


def B(f3, a, b, imm):
    return ((imm >> 12 & 1) << 31 | (imm >> 5 & 63) << 25 | b << 20 | a << 15 | f3 << 12
            | (imm >> 1 & 15) << 8 | (imm >> 11 & 1) << 7 | 0x63)


def J(rd, imm):
    return ((imm >> 20 & 1) << 31 | (imm >> 1 & 0x3FF) << 21 | (imm >> 11 & 1) << 20
            | (imm >> 12 & 0xFF) << 12 | rd << 7 | 0x6F)


def addi(rd, a, imm): return I(0x13, 0, rd, a, imm)
def lui(rd, v): return (v & 0xFFFFF) << 12 | rd << 7 | 0x37
def li(rd, v):
    lo = (v & 0xFFF) - (0x1000 if v & 0x800 else 0)
    return [lui(rd, (v - lo) >> 12 & 0xFFFFF), addi(rd, rd, lo)]
def lw(rd, a, imm=0): return I(0x03, 2, rd, a, imm)
def sw(b, a, imm=0): return S(2, b, a, imm)
def jalr(rd, a, imm=0): return I(0x67, 0, rd, a, imm)
def csrrw(rd, c, a): return I(0x73, 1, rd, a, c)
def csrrs(rd, c, a): return I(0x73, 2, rd, a, c)
def csrrc(rd, c, a): return I(0x73, 3, rd, a, c)
def csrrwi(rd, c, z): return I(0x73, 5, rd, z, c)
def csrrsi(rd, c, z): return I(0x73, 6, rd, z, c)
def csrrci(rd, c, z): return I(0x73, 7, rd, z, c)
NOP = 0x13


class Run:
    """transfers: list of (kind, byte address, sel, data) with kind R or W;
    clocks: one dict per clock; mem: final memory (byte address of word)."""


def run(mem, n=60, wait=1, irq=lambda t, k: 0, rst=lambda t, k: 0, idle_ack=0, junk=0, clocks=None, dut=None,
        hook=None):
    """mem: {address: word}; everything else reads as NOP.  wait: clocks
    between STB and ACK, a number or function of the transfer index."""
    if dut is None:
        from sentinel.top import Top
        dut = Top()
    mem = dict(mem)
    out = Run()
    out.transfers, out.clocks, out.mem = [], [], mem
    limit = clocks or 60 * n
    w = wait if callable(wait) else (lambda k: wait)

    async def tb(ctx):
        b = dut.bus
        held = 0
        for t in range(limit):
            k = len(out.transfers)
            ctx.set(dut.irq, irq(t, k))
            stb = ctx.get(b.stb) & ctx.get(b.cyc)
            adr = ctx.get(b.adr) << 2
            ack = 0
            if stb:
                ack = held >= w(k)
                held += 1
                ctx.set(b.dat_r, mem.get(adr, NOP) if ack else junk)
            else:
                held = 0
                ctx.set(b.dat_r, junk)
                ack = idle_ack
            ctx.set(b.ack, ack)
            out.clocks.append(dict(stb=ctx.get(b.stb), cyc=ctx.get(b.cyc), we=ctx.get(b.we), adr=adr,
                                   sel=ctx.get(b.sel), dat_w=ctx.get(b.dat_w), ack=int(ack)))
            if hook:
                hook(ctx, t)
            if stb and ack:
                held = 0
                sel = ctx.get(b.sel)
                if ctx.get(b.we):
                    d = ctx.get(b.dat_w)
                    mask = sum(0xFF << 8 * i for i in range(4) if sel >> i & 1)
                    mem[adr] = mem.get(adr, NOP) & ~mask | d & mask
                    out.transfers.append(("W", adr, sel, d & mask))
                else:
                    out.transfers.append(("R", adr, sel, mem.get(adr, NOP)))
                if len(out.transfers) >= n:
                    return
            await RST.tick(ctx, rst(t, k))

    class RST:
        @staticmethod
        async def tick(ctx, r):
            ctx.set(top_rst, r)
            await ctx.tick()

    from amaranth import Module, Signal, ResetInserter
    top_rst = Signal()
    m = Module()
    m.submodules.dut = ResetInserter(top_rst)(dut)
    sim = Simulator(m)
    sim.add_clock(1e-6)
    sim.add_testbench(tb)
    sim.run()
    return out


def at(words, base=0):
    return {base + 4 * i: w for i, w in enumerate(words)}


def regs_after(words, regs, extra=None, at0=0, **kw):
    """Run words from 0, then store regs to 0x800.. and return their values."""
    prog = list(words) + [sw(r, 0, 0x400 + 4 * i) for i, r in enumerate(regs)]
    m = at(prog)
    m.update(extra or {})
    seen = run(m, **kw).mem
    return [seen.get(0x400 + 4 * i) for i in range(len(regs))]


def check(name, got, want):
    if got != want:
        f = lambda v: [x if not isinstance(x, int) else hex(x) for x in v] if isinstance(v, (list, tuple)) else v
        print(f"{name}: expected {f(want)}, got {f(got)}")
        sys.exit(1)
