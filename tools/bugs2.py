"""More planted bugs: rare values, histories, timing and circumstances."""
from bugs import bug

# ---- C01
bug("C01-mie-survives-reset", "C01",
    "a reset while MIE is set",
    "mstatus.MIE (and MPIE) keep their value across a warm reset",
    [("datapath.py", 'mstatus = Signal(MStatus, init={"mpp": 0b11})', 'mstatus = Signal(MStatus, init={"mpp": 0b11}, reset_less=True)')],
    """
from simcore import *
m = at([csrrs(3, MSTATUS, 0), sw(3, 0, 0x400), csrrwi(0, MSTATUS, 8), csrrs(3, MSTATUS, 0), sw(3, 0, 0x404), NOP, NOP, NOP])
for n in (70, 71, 74):
    r = run(m, n=1000, clocks=160, rst=lambda t, k: int(n <= t < n + 3))
    w = [d & 8 for k, a, s, d in r.transfers if k == "W"]
    check("MIE before and after reset", w[:4], [0, 8, 0, 8])
""")

bug("C01-meie-survives-reset", "C01",
    "a reset after MEIE was set, then software that sets MSTATUS.MIE with the line high and reads mie",
    "mie.MEIE keeps its value across a warm reset",
    [("datapath.py", "mie = Signal(MIE)", "mie = Signal(MIE, reset_less=True)")],
    """
from simcore import *
# 0: read mie and store it; then set MEIE
m = at([csrrs(3, MIE, 0), sw(3, 0, 0x400)] + li(2, 0x800) + [csrrw(0, MIE, 2), csrrs(3, MIE, 0), sw(3, 0, 0x404)])
r = run(m, n=1000, clocks=160, rst=lambda t, k: int(100 <= t < 103))
w = [d for k, a, s, d in r.transfers if k == "W" and a == 0x400]
check("mie before and after reset", w, [0, 0])
""")

# ---- C02
bug("C02-add-carry-skip", "C02",
    "an addition whose carry out of byte 0 ripples through bytes 1 and 2 into byte 3",
    "a carry generated in byte 0 does not propagate through bytes 1 and 2 into byte 3",
    [("alu.py", "self.add = ALU._Unit(width, lambda a, b: a + b)",
      "self.add = ALU._Unit(width, lambda a, b: ALU._add(a, b))"),
     ("alu.py", "    def elaborate(self, platform):  # noqa: D102\n        m = Module()\n        m.submodules.add = self.add",
      "    @staticmethod\n    def _add(a, b):\n        # Four bytes with carry look-ahead.\n        s = [a[8*i:8*i+8] + b[8*i:8*i+8] for i in range(4)]\n        g = [x[8] for x in s]\n        p = [x[:8] == 0xff for x in s]\n        c = [C(0, 1), g[0], g[1] | (p[1] & g[0]), g[2] | (p[2] & g[1])]\n        return Cat(*[(x + k)[:8] for x, k in zip(s, c)])\n\n    def elaborate(self, platform):  # noqa: D102\n        m = Module()\n        m.submodules.add = self.add")],
    """
from simcore import *
for a, b in ((5, 6), (0xFF, 1), (0xFFFF, 1), (0x12FFFFFF, 1), (0x00FF80FF, 0x00007F01), (0x010203FE, 0xAAFDFC02)):
    got = regs_after(li(1, a) + li(2, b) + [R(0, 0, 3, 1, 2)], [3])
    check(f"{a:#x}+{b:#x}", got, [(a + b) & M32])
""")

bug("C02-sltu-msb-equal", "C02",
    "SLTU/SLT/BLTU of operands that differ only below bit 16 while the upper halves are equal and the lower compare borrows",
    "unsigned compare of values with equal upper halves compares the lower halves as signed",
    [("alu.py", "m.d.comb += self.o_mux.eq(self.sub.o[32])",
      "m.d.comb += self.o_mux.eq(Mux(mod_a[16:] == mod_b[16:], mod_a[:16].as_signed() < mod_b[:16].as_signed(), self.sub.o[32]))"),
     ("alu.py", "from amaranth import Elaboratable, Signal, Module, C, Cat", "from amaranth import Elaboratable, Signal, Module, C, Cat, Mux")],
    """
from simcore import *
for a, b in ((1, 2), (2, 1), (0x1234, 0x9234), (0x50008000, 0x50007FFF), (0xFFFF0000, 0xFFFF8000)):
    got = regs_after(li(1, a) + li(2, b) + [R(0, 3, 3, 1, 2)], [3])
    check(f"{a:#x} <u {b:#x}", got, [int(a < b)])
""")

bug("C02-xori-all-ones", "C02",
    "XORI with the immediate -1 (NOT) after an instruction whose immediate differs",
    "the immediate of XORI is not latched when it is -1: the previous immediate is used",
    [("decode.py", "                with m.Case(OpcodeType.OP_IMM):\n                    m.d.sync += self.imm.eq(insn.imm.I)",
      "                with m.Case(OpcodeType.OP_IMM):\n                    with m.If(~insn.raw[20:].all() | (insn.funct3 != 4)):\n                        m.d.sync += self.imm.eq(insn.imm.I)")],
    """
from simcore import *
got = regs_after(li(1, 0x1234) + [I(0x13, 4, 3, 1, -1), lui(4, 0x77), I(0x13, 4, 5, 1, -1), I(0x13, 4, 6, 1, -2)], [3, 5, 6])
check("xori", got, [M32 ^ 0x1234, M32 ^ 0x1234, (M32 - 1) ^ 0x1234])
""")

# ---- C03
bug("C03-srai-reads-bit5", "C03",
    "SRAI by an amount of 31 (SRLI by 31 is right)",
    "SRAI by 31 shifts by 30",
    [("decode.py", "                with m.Case(OpcodeType.OP_IMM):\n                    m.d.sync += self.imm.eq(insn.imm.I)",
      "                with m.Case(OpcodeType.OP_IMM):\n                    m.d.sync += self.imm.eq(insn.imm.I)\n                    with m.If((insn.funct3 == 5) & (insn.rs2 == 31) & insn.raw[30]):\n                        m.d.sync += self.imm[0].eq(0)")],
    """
from simcore import *
for k in (0, 1, 15, 30, 31):
    got = regs_after(li(1, 0x40000000) + [I(0x13, 5, 3, 1, 0x400 | k), I(0x13, 5, 4, 1, k)], [3, 4])
    check(f"srai, srli by {k}", got, [0x40000000 >> k] * 2)
""")

bug("C03-srl-fill", "C03",
    "SRL/SRLI of a negative value by an amount with bit 1 set",
    "the first step of SRL fills with the sign when bit 1 of the amount is set",
    [("alu.py", "self.srl = ALU._Unit(width, lambda a, _: a >> 1)", "self.srl = ALU._Unit(width, lambda a, b: Cat(a[1:], a[-1] & b[1]))")],
    """
from simcore import *
for k in (1, 2, 3, 31):
    got = regs_after(li(1, 0x80000000) + li(2, k) + [R(0, 5, 3, 1, 2), I(0x13, 5, 4, 1, k), R(0x20, 5, 5, 1, 2)], [3, 4, 5])
    check(f"srl, srli, sra by {k}", got, [0x80000000 >> k, 0x80000000 >> k, (-0x80000000 >> k) & M32])
""")

# ---- C04
bug("C04-auipc-high-pc", "C04",
    "AUIPC executed at an address of 2 GiB or more",
    "the PC is read without its top bit (AUIPC, links, branch and jump targets)",
    [("alu.py", "m.d.sync += self.data.eq(Cat(C(0, 2), self.pc))", "m.d.sync += self.data.eq(Cat(C(0, 2), self.pc[:29]))")],
    """
from simcore import *
for a in (0x100, 0x7FFFFFF0, 0x80000100, 0xFFFFF000):
    m = at(li(1, a) + [jalr(0, 1, 0)])
    m.update(at([0x12345017 | 3 << 7, sw(3, 0, 0x400)], a))
    check(f"auipc at {a:#x}", run(m, n=6).mem.get(0x400), (a + 0x12345000) & M32)
""")

bug("C04-lui-x2-imm", "C04",
    "LUI whose bits 30:29 are both set, after an instruction with a negative immediate",
    "the top bit of the LUI immediate is not updated when bits 30:29 are set and the previous immediate was negative",
    [("decode.py", "                with m.Case(OpcodeType.LUI):\n                    m.d.sync += self.imm.eq(insn.imm.U)",
      "                with m.Case(OpcodeType.LUI):\n                    m.d.sync += self.imm[:31].eq(insn.imm.U)\n                    with m.If(~(insn.raw[29:31].all() & self.imm[31])):\n                        m.d.sync += self.imm[31].eq(insn.sign)")],
    """
from simcore import *
for prev in (1, -1):
    for v in (0x12345, 0x71234, 0xF1234, 0x60000):
        got = regs_after([addi(4, 0, prev), lui(3, v)], [3])
        check(f"lui {v:#x} after addi {prev}", got, [v << 12])
""")

# ---- C05
bug("C05-beq-ignores-msb", "C05",
    "BEQ/BNE of two values that differ only in bit 31",
    "values that differ only in bit 31 compare equal",
    [("alu.py", "m.d.comb += self.ctrl.zero.eq(self.o == 0)", "m.d.comb += self.ctrl.zero.eq(self.o[:-1] == 0)")],
    """
from simcore import *
for a, b in ((5, 5), (5, 6), (5, 0x80000005), (0x80000000, 0)):
    got = regs_after(li(1, a) + li(2, b) + [addi(3, 0, 1), B(0, 1, 2, 8), addi(3, 0, 2)], [3])
    check(f"beq {a:#x} {b:#x}", got, [1 if a == b else 2])
""")

# ---- C06
bug("C06-jalr-link-after-wrap", "C06",
    "a JALR/JAL at 0xFFFFFFFC linking address 0",
    "link addresses saturate instead of wrapping at the top of the address space",
    [("alu.py", "            with m.Case(OpType.ADD):\n                m.d.comb += self.o_mux.eq(self.add.o)",
      "            with m.Case(OpType.ADD):\n                m.d.comb += self.o_mux.eq(self.add.o)\n                with m.If((self.a == 4) & (self.b == 0xFFFFFFFC)):\n                    m.d.comb += self.o_mux.eq(self.b)")],
    """
from simcore import *
for a in (0x100, 0x7FFFFFFC, 0xFFFFFFFC):
    m = at(li(1, a) + [jalr(0, 1, 0)])
    m.update({a: jalr(5, 0, 0x200)})
    m.update(at([sw(5, 0, 0x400)], 0x200))
    check(f"link of jalr at {a:#x}", run(m, n=6).mem.get(0x400), (a + 4) & M32)
""")

bug("C06-j-imm-19-12", "C06",
    "a JAL whose offset has bit 12 and bit 19 different",
    "J-type immediate bits 12 and 19 are swapped",
    [("insn.py", "self.raw[12:20], Value.replicate(self.sign, 12))", "self.raw[19], self.raw[13:19], self.raw[12], Value.replicate(self.sign, 12))")],
    """
from simcore import *
a = 0x100000
for off in (8, -8, 0x1000, 0x80000, 0x81000, -0x1000, -0x80000, 0xFF800):
    m = at(li(1, a) + [jalr(0, 1, 0)])
    m[a] = J(0, off)
    check(f"jal {off}", run(m, n=5).transfers[4][1], a + off)
""")

# ---- C07
bug("C07-lh-sign-other-half", "C07",
    "LH of the upper halfword when the lower halfword (an unselected lane) has another sign",
    "LH at offset 2 sign-extends with the lower halfword's sign",
    [("align.py", "self.data.eq(selected_dat[0:16].as_signed())", "self.data.eq(Cat(selected_dat[0:16], self.wb_dat_r[15].replicate(16)))"),
     ("align.py", "from amaranth import Signal, Module", "from amaranth import Signal, Module, Cat")],
    """
from simcore import *
for w in (0x12345678, 0x80001234, 0x12348000, 0xFFFFFFFF):
    got = regs_after([I(3, 1, 3, 0, 0x702), I(3, 1, 4, 0, 0x700)], [3, 4], extra={0x700: w})
    s = lambda v: (v ^ 0x8000) - 0x8000 & M32
    check(f"lh from {w:#x}", got, [s(w >> 16), s(w & 0xFFFF)])
""")

bug("C07-lb-high-address", "C07",
    "a load from an address of 2 GiB or more",
    "the top bit of data addresses is lost (fetches keep it)",
    [("align.py", "m.d.comb += self.wb_adr.eq(self.latched_adr[2:])", "m.d.comb += self.wb_adr.eq(self.latched_adr[2:31])")],
    """
from simcore import *
for a in (0x1000, 0x7FFFFFFC, 0x80000000, 0xFFFFFFF0):
    r = run(at(li(1, a) + [lw(3, 1, 0)]), n=4)
    check(f"lw {a:#x}", r.transfers[3][1], a)
""")

# ---- C08
bug("C08-sb-after-irq", "C08",
    "a SB or SH while the interrupt line is high (interrupts disabled)",
    "SB to the upper lanes writes stale data when the interrupt line is high",
    [("top.py", "        with m.If(self.control.mem.latch_data):\n", "        with m.If(self.control.mem.latch_data & ~(irq & (self.control.mem.sel == 1) & data_adr[1])):\n"),
     ("top.py", "        # Bus conns\n        read_data = Signal.like(self.bus.dat_r)\n        mem_ack = Signal()\n        irq = Signal()\n", ""),
     ("top.py", "        mem_reset_guard = Signal(init=1)\n\n", "        mem_reset_guard = Signal(init=1)\n        read_data = Signal.like(self.bus.dat_r)\n        mem_ack = Signal()\n        irq = Signal()\n\n")],
    """
from simcore import *
for lvl in (0, 1):
    for off in range(4):
        m = at(li(1, 0xA5) + [sw(0, 0, 0x440), S(0, 1, 0, 0x440 + off)])
        m[0x440] = 0
        check(f"sb at {off}, irq {lvl}", run(m, n=6, irq=lambda t, k: lvl).mem[0x440], 0xA5 << 8 * off)
""")

# ---- C09
bug("C09-sh-odd-high", "C09",
    "an SH at an address that is 3 modulo 4 (1 modulo 4 still traps)",
    "SH at 3 mod 4 writes instead of trapping",
    [("exception.py", """        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_STORE_ADR):
            with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                        self.src.alu_lo[0] == 1)) |""", """        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_STORE_ADR):
            with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                        (self.src.alu_lo == 1))) |""")],
    """
from simcore import *
for off in range(4):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), S(1, 1, 0, 0x440 + off)])
    m.update(at([csrrs(3, MCAUSE, 0), sw(3, 0, 0x400)], 0x200))
    r = run(m, n=7)
    check(f"sh at {off}", r.transfers[4][:2], ("R", 0x200) if off & 1 else ("W", 0x440))
""")

bug("C09-cause-after-interrupt", "C09",
    "a misaligned load that follows a misaligned store with no other trap in between",
    "mcause of a misaligned load is or'ed into the previous cause instead of replacing it",
    [("exception.py", "mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED),", "mcause_latch.cause.eq(Value.cast(MCause.Cause.LOAD_MISALIGNED) | (Value.cast(mcause_latch.cause) & 2)),"),
     ("exception.py", "from amaranth import ", "from amaranth import Value, ")],
    """
from simcore import *
def cause(bad):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1)] + bad[:1])
    m.update(at(li(1, 0x300) + [csrrw(0, MTVEC, 1)] + bad[1:], 0x200))
    m.update(at([csrrs(3, MCAUSE, 0), sw(3, 0, 0x400)], 0x300))
    return run(m, n=12).mem.get(0x400)
check("lw after lw", cause([lw(5, 0, 1), lw(5, 0, 2)]), 4)
check("lw after sw", cause([sw(5, 0, 1), lw(5, 0, 2)]), 4)
check("sw after lw", cause([lw(5, 0, 1), sw(5, 0, 2)]), 6)
""")

# ---- C10
bug("C10-misaligned-jump-keeps-cause", "C10",
    "a misaligned jump or taken branch while the interrupt line is high and interrupts are disabled",
    "a misaligned jump is not detected while the interrupt line is high (interrupts disabled)",
    [("exception.py", "            with m.If(self.src.alu_lo[1] == 1):", "            with m.If((self.src.alu_lo[1] == 1) & ~self.src.csr.mip.meip):")],
    """
from simcore import *
for lvl in (0, 1):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), J(5, 6)])
    m.update(at([csrrs(3, MCAUSE, 0), sw(3, 0, 0x400)], 0x200))
    r = run(m, n=6, irq=lambda t, k: lvl)
    check(f"fetch after jal +6, irq {lvl}", r.transfers[4][1], 0x200)
""")

# ---- C11
bug("C11-mret-any-rd4", "C11",
    "the MRET encoding with only bit 11 (the top bit of rd) set",
    "0x30200873 executes as MRET",
    [("decode.py", """                    with m.Elif(insn.raw == Insn.MRET):
                        m.d.sync += self.exception.valid.eq(0)""", """                    with m.Elif((insn.raw & ~0x800) == Insn.MRET):
                        m.d.sync += self.exception.valid.eq(0)"""),
     ("control.py", "with m.If(insn.raw == Insn.MRET):", "with m.If((insn.raw & ~0x800) == Insn.MRET):")],
    """
from simcore import *
for w in (0x302000F3, 0x30200873, 0x30208073, 0x30200073):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), csrrw(0, MEPC, 1), w])
    m.update(at([csrrs(3, MEPC, 0), sw(3, 0, 0x400)], 0x200))
    check(f"mepc after {w:#x}", run(m, n=9).mem.get(0x400), 0x200 if w == MRET else 16)
""")

bug("C11-reserved-after-load", "C11",
    "a reserved major opcode right after a load",
    "a reserved major opcode executes as something else when the previous instruction was a load",
    [("decode.py", """                with m.Default():
                    # Catch-all for all ones.
                    m.d.sync += self.exception.valid.eq(1)""", """                with m.Default():
                    # Catch-all for all ones.
                    m.d.sync += self.exception.valid.eq(self.no_load)"""),
     ("decode.py", "        with m.If(self.start):\n            m.d.sync += src_a.eq(insn.rs1)\n",
      "        with m.If(self.start):\n            m.d.sync += src_a.eq(insn.rs1)\n            m.d.sync += self.no_load.eq(insn.opcode != OpcodeType.LOAD)\n"),
     ("decode.py", "        forward_csr = Signal()\n        csr_quadrant = Signal(Quadrant)", "        self.no_load = Signal(init=1)\n        forward_csr = Signal()\n        csr_quadrant = Signal(Quadrant)")],
    """
from simcore import *
for first in (NOP, lw(5, 0, 0x440)):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), first, 0x0000001F, NOP])
    m.update(at([csrrs(3, MCAUSE, 0), sw(3, 0, 0x400)], 0x200))
    check("mcause", run(m, n=10).mem.get(0x400), 2)
""")

bug("C11-system-funct3-4", "C11",
    "a SYSTEM word with funct3 = 4 whose funct12 is an implemented CSR",
    "SYSTEM words with funct3 4 execute as CSR reads",
    [("decode.py", "                    with m.Elif((insn.funct3 != 0) & (insn.funct3 != 4)):\n                        # CSR ops",
      "                    with m.Elif(insn.funct3 != 0):\n                        # CSR ops"),
     ("control.py", "with m.Elif((insn.funct3 != 0) & (insn.funct3 != 4)):", "with m.Elif(insn.funct3 != 0):"),
     ("control.py", "with m.Elif((csr_op == Insn.CSR.RS) & (src_a == 0)):", "with m.Elif((csr_op == 4) | ((csr_op == Insn.CSR.RS) & (src_a == 0))):")],
    """
from simcore import *
for c in (0x300, 0x340, 0xF11, 0x123):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), I(0x73, 4, 3, 0, c)])
    m.update(at([csrrs(3, MCAUSE, 0), sw(3, 0, 0x400)], 0x200))
    check(f"mcause of funct3=4 {c:#x}", run(m, n=8).mem.get(0x400), 2)
""")

# ---- C12
bug("C12-ro-space-late", "C12",
    "a CSR write to a read-only CSR, with particular garbage on DAT_R in the clock after its fetch was acknowledged",
    "the read-only test of a CSR access looks at the bus one clock after the instruction was there",
    [("decode.py", "        csr_ro_space = Signal()\n\n        m.d.sync += [", "        csr_ro_space = Signal()\n\n        m.d.comb += csr_ro_space.eq(insn.csr.access == AccessMode.READ_ONLY)\n        m.d.sync += ["),
     ("decode.py", "            csr_op.eq(insn.funct3),\n            csr_ro_space.eq(insn.csr.access == AccessMode.READ_ONLY)\n", "            csr_op.eq(insn.funct3)\n")],
    """
from simcore import *
for junk in (0, M32, NOP):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), csrrw(0, 0xF14, 1)])
    m.update(at([csrrs(3, MCAUSE, 0), sw(3, 0, 0x400)], 0x200))
    check(f"write to mhartid, junk {junk:#x}", run(m, n=8, junk=junk).mem.get(0x400), 2)
    got = regs_after(li(1, 0x77) + [csrrw(0, MSCRATCH, 1), csrrs(3, MSCRATCH, 0)], [3], junk=junk)
    check(f"mscratch, junk {junk:#x}", got, [0x77])
""")

bug("C12-supervisor-alias", "C12",
    "an access to a hypervisor-quadrant CSR number (0x2xx, 0x6xx, 0xAxx or 0xExx) whose machine-mode counterpart exists",
    "CSR numbers with bits 9:8 = 10 alias the machine-mode registers",
    [("decode.py", "with m.Elif(csr_quadrant != Quadrant.MACHINE):", "with m.Elif((csr_quadrant != Quadrant.MACHINE) &\n                        (csr_quadrant != Quadrant.HYPERVISOR)):")],
    """
from simcore import *
for c in (0x040, 0x140, 0x240, 0xE14):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), csrrs(4, c, 0)])
    m.update(at([csrrs(3, MCAUSE, 0), sw(3, 0, 0x400)], 0x200))
    check(f"read of csr {c:#x}", run(m, n=8).mem.get(0x400), 2)
""")

# ---- C13
bug("C13-mie-read-after-mstatus", "C13",
    "a read of mie (or mip) after a read of mstatus",
    "the buffer that reads of mie are assembled in keeps bits of the mstatus read before it",
    [("datapath.py", """            with m.If(self.pub.adr == self.MIE):
                mie_buf = View(MIE, read_buf)
                m.d.sync += [
                    read_buf.eq(0),
                    mie_buf""", """            with m.If(self.pub.adr == self.MIE):
                mie_buf = View(MIE, read_buf)
                m.d.sync += [
                    read_buf[4:].eq(0),
                    mie_buf""")],
    """
from simcore import *
got = regs_after(li(1, 0x800) + [csrrw(0, MIE, 1), csrrs(3, MIE, 0), csrrwi(0, MSTATUS, 8), csrrs(4, MSTATUS, 0), csrrs(5, MIE, 0)], [3, 4, 5])
check("mie, mstatus, mie", got, [0x800, 0x1808, 0x800])
""")

bug("C13-csr-imm-wide", "C13",
    "CSRRSI/CSRRWI with an immediate of 16 or more to mscratch or mcause",
    "CSR immediates of 16..31 are sign-extended",
    [("alu.py", "m.d.sync += self.data.eq(self.csr_imm)", "m.d.sync += self.data.eq(self.csr_imm.as_signed())")],
    """
from simcore import *
for z in (1, 15, 16, 31):
    got = regs_after([csrrwi(0, MSCRATCH, z), csrrs(3, MSCRATCH, 0)], [3])
    check(f"csrrwi {z}", got, [z])
""")

# ---- C14
bug("C14-fence-tso", "C14",
    "FENCE.TSO (fm = 8) or another FENCE with a nonzero fm field",
    "FENCE with the top fm bit set raises illegal-instruction",
    [("decode.py", """                    with m.If(insn.funct3 != 0):
                        m.d.sync += self.exception.valid.eq(1)
                with m.Case(OpcodeType.SYSTEM):""", """                    with m.If((insn.funct3 != 0) | insn.sign):
                        m.d.sync += self.exception.valid.eq(1)
                with m.Case(OpcodeType.SYSTEM):""")],
    """
from simcore import *
for w in (0x0FF0000F, 0x0000000F, 0x8330000F, 0x0100000F):
    r = run(at([NOP, w, NOP, NOP], 0), n=4)
    check(f"fence {w:#x}", [x[1] for x in r.transfers], [0, 4, 8, 12])
""")

bug("C14-wfi-waits", "C14",
    "a WFI with the interrupt line low",
    "WFI stops fetching until the interrupt line rises",
    [("top.py", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),",
      "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~waiting),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~waiting),"),
     ("top.py", "        m.d.sync += mem_reset_guard.eq(0)\n", "        m.d.sync += mem_reset_guard.eq(0)\n        waiting = Signal()\n        with m.If(self.irq):\n            m.d.sync += waiting.eq(0)\n        with m.Elif(self.decode.do_decode & self.bus.stb):\n            m.d.sync += waiting.eq(self.bus.dat_r == 0x10500073)\n")],
    """
from simcore import *
for lvl in (1, 0):
    r = run(at([NOP, 0x10500073, NOP, NOP]), n=4, irq=lambda t, k: lvl)
    check(f"fetches around wfi, irq {lvl}", [x[1] for x in r.transfers], [0, 4, 8, 12])
""")

# ---- C15
bug("C15-mret-mpie", "C15",
    "MRET with MPIE = 0 (a return from a trap taken with interrupts off), then a look at MPIE",
    "MRET leaves MPIE as it was instead of setting it",
    [("datapath.py", "                mstatus.mie.eq(mstatus.mpie),\n                mstatus.mpie.eq(1)", "                mstatus.mie.eq(mstatus.mpie),\n                mstatus.mpie.eq(mstatus.mie | mstatus.mpie)")],
    """
from simcore import *
for v in (0, 0x80, 0x88, 8):
    got = regs_after(li(1, v) + [csrrw(0, MSTATUS, 1)] + li(2, 28) + [csrrw(0, MEPC, 2), MRET, csrrs(3, MSTATUS, 0)], [3])
    check(f"mstatus {v:#x} after mret", got, [0x1880 | (8 if v & 0x80 else 0)])
""")

bug("C15-cause-of-late-csr", "C15",
    "an illegal CSR access whose fetched word is followed on the bus by garbage that looks like EBREAK",
    "the cause of an illegal CSR access is taken from the bus one clock late",
    [("decode.py", "        with m.If(forward_csr):\n            m.d.sync += self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN)\n",
      "        with m.If(forward_csr):\n            with m.If(insn.raw == Insn.EBREAK):\n                m.d.sync += self.exception.e_type.eq(MCause.Cause.BREAKPOINT)\n")],
    """
from simcore import *
for junk in (0, 0x73, 0x100073):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), csrrw(0, 0x123, 1)])
    m.update(at([csrrs(3, MCAUSE, 0), sw(3, 0, 0x400)], 0x200))
    check(f"mcause of an illegal csr, junk {junk:#x}", run(m, n=8, junk=junk).mem.get(0x400), 2)
""")

# ---- C16
bug("C16-irq-synchroniser", "C16",
    "the interrupt line rising in the very clock an instruction is decoded (or falling then)",
    "the interrupt line is seen one clock late",
    [("top.py", "            irq.eq(self.irq)\n", ""),
     ("top.py", "        # ALU conns\n        connect(", "        m.d.sync += irq.eq(self.irq)\n\n        # ALU conns\n        connect(")],
    """
from simcore import *
prog = at(li(1, 0x200) + [csrrw(0, MTVEC, 1)] + li(2, 0x800) + [csrrw(0, MIE, 2), csrrwi(0, MSTATUS, 8)])
n = len(prog)
prog[4 * n] = addi(5, 0, 1)
m = dict(prog)
# find the clock in which the fetch of the victim is acknowledged
r = run(m, n=n + 3)
acks = [t for t, c in enumerate(r.clocks) if c["stb"] and c["ack"]]
v = acks[n]
for rise, taken in ((v - 2, 1), (v, 1), (v + 1, 1), (v + 2, 0)):
    r = run(m, n=n + 2, irq=lambda t, k: int(t >= rise))
    check(f"line rises {rise - v} after the ack", r.transfers[n + 1][1], 0x200 if taken else 4 * n + 4)
""")

bug("C16-edge-triggered", "C16",
    "an interrupt line that stays high across MRET",
    "the interrupt is taken once per rising edge instead of while the line is high",
    [("top.py", "            self.datapath.csr.mip_w.meip.eq(irq)\n", "            self.datapath.csr.mip_w.meip.eq(irq & ~served)\n"),
     ("top.py", "        m.d.sync += mem_reset_guard.eq(0)\n", "        m.d.sync += mem_reset_guard.eq(0)\n        served = Signal()\n        with m.If(~self.irq):\n            m.d.sync += served.eq(0)\n        with m.Elif(self.control.csr.ctrl.exception == ExceptCtl.LEAVE_INT):\n            m.d.sync += served.eq(1)\n"),
     ("top.py", "from .ucodefields import ", "from .ucodefields import ExceptCtl, ")],
    """
from simcore import *
m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1)] + li(2, 0x800) + [csrrw(0, MIE, 2), csrrwi(0, MSTATUS, 8), NOP, NOP])
m.update(at([addi(6, 6, 1), sw(6, 0, 0x400), MRET], 0x200))
r = run(m, n=40, irq=lambda t, k: int(k > 8))
check("interrupts taken with the line held high", sum(k == "W" for k, *_ in r.transfers) > 3, True)
""")

bug("C16-shadow-after-mret", "C16",
    "an interrupt pending at the first instruction after an MRET that returns to an interruptible program",
    "one instruction always runs between an MRET and the next interrupt",
    [("exception.py", "            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      self.src.csr.mie.meie):",
      "            m.d.sync += shadow.eq(0)\n            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      self.src.csr.mie.meie & ~shadow):"),
     ("exception.py", "        mcause_latch = Signal(MCause)\n", "        mcause_latch = Signal(MCause)\n        shadow = Signal()\n        with m.If(self.src.ctrl.except_ctl == ExceptCtl.LEAVE_INT):\n            m.d.sync += shadow.eq(1)\n")],
    """
from simcore import *
m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1)] + li(2, 0x800) + [csrrw(0, MIE, 2), csrrwi(0, MSTATUS, 8), addi(6, 6, 1), addi(6, 6, 1), addi(6, 6, 1)])
m.update(at([sw(6, 0, 0x400), MRET], 0x200))
r = run(m, n=40, irq=lambda t, k: int(k > 7))
check("progress while the line is held high", {d for k, a, s, d in r.transfers if k == "W"} <= {0, 1}, True)
w = [d for k, a, s, d in r.transfers if k == "W"]
check("register across interrupts", len(set(w)), 1)
""")

# ---- C17
bug("C17-mip-registered", "C17",
    "the interrupt line changing in the clock before mip is read",
    "mip shows the line's level of the clock before",
    [("datapath.py", "        m.d.comb += mip.meip.eq(self.pub.mip_w.meip)", "        m.d.sync += mip.meip.eq(self.pub.mip_w.meip)")],
    """
from simcore import *
m = at([NOP, csrrs(3, MIP, 0), sw(3, 0, 0x400)])
r = run(m, n=4)
acks = [t for t, c in enumerate(r.clocks) if c["stb"] and c["ack"]]
v = acks[1]
for rise in range(v - 3, v + 4):
    got = run(m, n=4, irq=lambda t, k: int(t >= rise)).mem.get(0x400)
    check(f"mip with the line rising {rise - v} after the ack", got, 0x800)
""")

bug("C17-meip-sticky", "C17",
    "the interrupt line pulsing high with MIE set and MEIE clear, then a read of mip with the line low",
    "mip.MEIP stays set after the line has dropped, until a read of mip",
    [("datapath.py", "        m.d.comb += mip.meip.eq(self.pub.mip_w.meip)",
      "        held = Signal()\n        m.d.comb += mip.meip.eq(self.pub.mip_w.meip)\n        with m.If((self.pub.ctrl.op == CSROp.READ_CSR) & (self.pub.adr == self.MIP)):\n            m.d.sync += held.eq(0)\n            with m.If(held):\n                m.d.comb += mip.meip.eq(1)\n        with m.Elif(self.pub.mip_w.meip & mstatus.mie & ~mie.meie):\n            m.d.sync += held.eq(1)")],
    """
from simcore import *
for v in (0, 8):
    got = regs_after([csrrwi(0, MSTATUS, v), NOP, NOP, csrrs(3, MIP, 0)], [3], irq=lambda t, k: int(k == 2))
    check(f"mip after a pulse, mstatus {v}", got, [0])
""")

# ---- C18
bug("C18-x0-msb-only", "C18",
    "an instruction with rd = x0 whose result is exactly 0x80000000",
    "x0 is written in that case",
    [("datapath.py", """                                 (self.pub.adr_w != 0 |
                                  self.pub.ctrl.allow_zero_wr))""", """                                 ((self.pub.adr_w != 0) |
                                  self.pub.ctrl.allow_zero_wr |
                                  (self.pub.dat_w == 0x80000000)))""")],
    """
from simcore import *
for v in (1, 0xFFFFFFFF, 0x80000000, 0x40000000):
    got = regs_after(li(5, v) + [addi(0, 5, 0), addi(3, 0, 0), R(0, 0, 0, 5, 0), addi(4, 0, 0)], [3, 4, 0])
    check(f"x0 after a result of {v:#x}", got, [0, 0, 0])
""")

# ---- C19
bug("C19-cyc-drops-on-irq", "C19",
    "an enabled interrupt becoming pending while an instruction fetch is waiting for its ACK",
    "the fetch is abandoned (CYC and STB drop before ACK) when an interrupt becomes pending",
    [("top.py", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),",
      "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~abandon),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~abandon),"),
     ("top.py", "        m.d.sync += mem_reset_guard.eq(0)\n", "        m.d.sync += mem_reset_guard.eq(0)\n        abandon = Signal()\n        rising = Signal()\n        m.d.sync += rising.eq(self.irq)\n        m.d.comb += abandon.eq(self.irq & ~rising & self.control.mem.insn_fetch & self.datapath.csr.mstatus_r.mie & self.datapath.csr.mie_r.meie)\n")],
    """
from simcore import *
prog = at(li(1, 0x200) + [csrrw(0, MTVEC, 1)] + li(2, 0x800) + [csrrw(0, MIE, 2), csrrwi(0, MSTATUS, 8)])
for rise in range(60, 140):
    r = run(prog, n=100, clocks=200, wait=5, irq=lambda t, k: int(t >= rise))
    prev = None
    for t, c in enumerate(r.clocks):
        if prev and prev["stb"] and not prev["ack"] and not c["stb"]:
            check(f"request in clock {t}, line rising at {rise}", "dropped", "held until ACK")
        prev = c
""")

bug("C19-sel-follows-alu", "C19",
    "a byte or halfword load whose slave leaves it waiting, with garbage on DAT_R meanwhile",
    "SEL of byte loads changes during the wait",
    [("top.py", "            self.addr_align.latched_adr.eq(data_adr),\n            self.addr_align.pc", "            self.addr_align.latched_adr.eq(Cat(Mux(self.control.mem.extend & (self.alu.o[0:2] == 3), self.alu.o[0:2], data_adr[0:2]), data_adr[2:])),\n            self.addr_align.pc"),
     ("top.py", "from amaranth import ", "from amaranth import Cat, Mux, ")],
    """
from simcore import *
for w in (1, 2, 4, 6):
    for off in range(4):
        r = run(at([I(3, 0, 3, 0, 0x440 + off), NOP]), n=3, wait=w, junk=0x03030303)
        sels = {c["sel"] for c in r.clocks if c["stb"] and c["adr"] == 0x440}
        check(f"SEL of lb at {off} during {w} waits", sels, {1 << off})
""")

bug("C19-byte-sel-hword", "C19",
    "a halfword access to the upper half of a word in the lower 2 GiB or in the upper 2 GiB (one lane differs)",
    "SH to the upper half selects three lanes",
    [("align.py", "                            m.d.comb += self.wb_sel.eq(0xc)", "                            m.d.comb += self.wb_sel.eq(Cat(0, self.latched_adr[31], 1, 1))"),
     ("align.py", "from amaranth import Signal, Module", "from amaranth import Signal, Module, Cat")],
    """
from simcore import *
for a in (0x442, 0x80000002):
    r = run(at(li(1, a) + [S(1, 2, 1, 0), NOP]), n=4)
    check(f"SEL of sh {a:#x}", r.transfers[3][2], 0xC)
""")

# ---- C20
bug("C20-store-repeated-on-irq", "C20",
    "a store acknowledged in a clock in which the interrupt line rises",
    "the acknowledge of a store is ignored when the interrupt line rises in the same clock, so the write is done twice",
    [("top.py", "            self.control.mem.valid.eq(mem_ack),", "            self.control.mem.valid.eq(mem_ack & ~(self.control.mem.write & self.irq & ~seen)),"),
     ("top.py", "        m.d.sync += mem_reset_guard.eq(0)\n", "        m.d.sync += mem_reset_guard.eq(0)\n        seen = Signal()\n        m.d.sync += seen.eq(self.irq)\n")],
    """
from simcore import *
m = at([addi(1, 0, 0x55), sw(1, 0, 0x440), NOP, NOP])
for rise in range(10, 40):
    r = run(m, n=5, irq=lambda t, k: int(t >= rise))
    check(f"transfers, line rising at {rise}", [(k, a) for k, a, s, d in r.transfers], [("R", 0), ("R", 4), ("W", 0x440), ("R", 8), ("R", 12)])
""")

bug("C20-load-x0-skipped", "C20",
    "a load with both rd and rs1 = x0",
    "a load from an absolute address into x0 skips its bus access",
    [("control.py", "                    op_map = Cat(insn.funct3, C(0x08 >> 3))\n                    m.d.sync += self.requested_op.eq(op_map)",
      "                    op_map = Cat(insn.funct3, C(0x08 >> 3))\n                    m.d.sync += self.requested_op.eq(op_map)\n                    with m.If((insn.rd == 0) & (insn.rs1 == 0)):\n                        m.d.sync += self.requested_op.eq(0x30)")],
    """
from simcore import *
for rd, ra in ((3, 0), (0, 1), (0, 0)):
    r = run(at([addi(1, 0, 0x440), lw(rd, ra, 0x100), NOP]), n=4)
    check(f"third transfer of lw x{rd}, (x{ra})", r.transfers[2][1], 0x540 if ra else 0x100)
""")

# ---- C21
bug("C21-wait-timeout", "C21",
    "a slave that takes 256 clocks or more to acknowledge a load",
    "a load that has waited 255 clocks gives up and returns whatever is on DAT_R",
    [("top.py", "            self.control.mem.valid.eq(mem_ack),", "            self.control.mem.valid.eq(mem_ack | timeout),"),
     ("top.py", "        m.d.sync += mem_reset_guard.eq(0)\n", "        m.d.sync += mem_reset_guard.eq(0)\n        timeout = Signal()\n        waited = Signal(8)\n        m.d.comb += timeout.eq((waited == 255) & ~self.control.mem.insn_fetch)\n        with m.If(self.control.mem.req):\n            m.d.sync += waited.eq(waited + 1)\n        with m.Else():\n            m.d.sync += waited.eq(0)\n")],
    """
from simcore import *
for w in (1, 100, 400):
    r = run({0: lw(3, 0, 0x440), 4: sw(3, 0, 0x400), 0x440: 0xCAFE}, n=4, clocks=3000, wait=lambda k: w if k == 1 else 1)
    check(f"lw with {w} waits", r.mem.get(0x400), 0xCAFE)
""")

# ---- C22
bug("C22-slow-trap-on-irq", "C22",
    "an instruction fetched while the interrupt line is high and MEIE is set but MIE is clear",
    "the request of every fetch is delayed by a clock while the interrupt line is high",
    [("top.py", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),",
      "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~hold),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~hold),"),
     ("top.py", "        m.d.sync += mem_reset_guard.eq(0)\n", "        m.d.sync += mem_reset_guard.eq(0)\n        busy = Signal()\n        hold = Signal()\n        m.d.sync += busy.eq(self.control.mem.req & ~self.bus.ack)\n        m.d.comb += hold.eq(self.irq & ~busy & self.datapath.csr.mie_r.meie)\n")],
    """
from simcore import *
for v in (0, 0x800):
    for lvl in (0, 1):
        r = run(at(li(1, v) + [csrrw(0, MIE, 1)] + [addi(2, 2, 1)] * 6), n=9, irq=lambda t, k: lvl)
        acks = [t for t, c in enumerate(r.clocks) if c["stb"] and c["ack"]]
        check(f"clocks per addi, mie {v:#x}, irq {lvl}", {b - a for a, b in zip(acks[4:], acks[5:])}, {4})
""")

bug("C22-hang-after-256-traps", "C22",
    "the 256th trap since reset",
    "the CPU stops fetching at the 256th trap (a double-fault style lock-up)",
    [("top.py", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),",
      "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~locked),\n            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~locked),"),
     ("top.py", "        m.d.sync += mem_reset_guard.eq(0)\n", "        m.d.sync += mem_reset_guard.eq(0)\n        traps = Signal(8)\n        locked = Signal()\n        m.d.comb += locked.eq(traps == 0xff)\n        with m.If((self.control.csr.ctrl.exception == ExceptCtl.ENTER_INT) & ~locked):\n            m.d.sync += traps.eq(traps + 1)\n"),
     ("top.py", "from .ucodefields import ", "from .ucodefields import ExceptCtl, ")],
    """
from simcore import *
m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), ECALL])
m[0x200] = ECALL
r = run(m, n=400, clocks=400 * 20)
check("fetches", len(r.transfers), 400)
""")

# ---- C23
bug("C23-mem-mask-sticky", "C23",
    "an instruction that does not access memory, some instructions after a load; look at mem_rmask",
    "mem_rmask of a load is not cleared for the next instruction while the interrupt line is high",
    [("formal.py", """            m.d.sync += [
                self.rvfi.mem_rmask.eq(0),
                self.rvfi.mem_wmask.eq(0)
            ]

        with m.If(just""", """            with m.If(~self.cpu.irq):
                m.d.sync += [
                    self.rvfi.mem_rmask.eq(0),
                    self.rvfi.mem_wmask.eq(0)
                ]

        with m.If(just""")],
    """
from simcore import *
from sentinel.formal import FormalTop
for lvl in (0, 1):
    dut = FormalTop()
    seen = []
    def hook(ctx, t):
        if ctx.get(dut.rvfi.valid):
            seen.append((ctx.get(dut.rvfi.insn), ctx.get(dut.rvfi.mem_rmask)))
    run(at([lw(3, 0, 0x440), addi(4, 0, 1), addi(5, 0, 1), NOP]), n=6, dut=dut, hook=hook, irq=lambda t, k: lvl)
    d = dict(seen)
    check(f"mem_rmask of lw and addi, irq {lvl}", [d[lw(3, 0, 0x440)], d[addi(4, 0, 1)]], [15, 0])
""")

bug("C23-order-8-bits", "C23",
    "more than 4096 instructions",
    "rvfi order wraps after 4096 instructions",
    [("formal.py", """            with m.Else():
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),""", """            with m.Else():
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq((self.rvfi.order + 1)[:12]),""")],
    """
from simcore import *
from sentinel.formal import FormalTop
dut = FormalTop()
seen = []
def hook(ctx, t):
    if ctx.get(dut.rvfi.valid):
        seen.append(ctx.get(dut.rvfi.order))
run({}, n=4200, dut=dut, hook=hook)
check("last order", seen[-1], len(seen) - 1)
""")

bug("C23-rs2-transparent", "C23",
    "an instruction whose rs2 is the register written by the instruction right before it",
    "rvfi rs2_rdata is the value before the previous instruction's write",
    [("formal.py", "rs2_port = self.cpu.datapath.regfile.mem.read_port(transparent_for=(w_port,))  # noqa: E501", "rs2_port = self.cpu.datapath.regfile.mem.read_port()")],
    """
from simcore import *
from sentinel.formal import FormalTop
for w in (1, 2, 3):
    dut = FormalTop()
    seen = []
    def hook(ctx, t):
        if ctx.get(dut.rvfi.valid):
            seen.append((ctx.get(dut.rvfi.insn), ctx.get(dut.rvfi.rs1_rdata), ctx.get(dut.rvfi.rs2_rdata)))
    add = R(0, 0, 4, 3, 3)
    run(at([addi(3, 0, 5), addi(3, 3, 7), add, NOP, NOP]), n=5, wait=w, dut=dut, hook=hook)
    check(f"rs1, rs2, wait {w}", [x[1:] for x in seen if x[0] == add], [(12, 12)])
""")

bug("C23-intr-after-reset", "C23",
    "a reset between a trap and the next instruction's report",
    "the RVFI monitor forgets that it has to start over: the instruction interrupted by the reset is reported",
    [("formal.py", "        in_init = Signal(1, init=1)\n", "        in_init = Signal(1, init=1, reset_less=True)\n")],
    """
from simcore import *
from sentinel.formal import FormalTop
dut = FormalTop()
seen = []
state = dict(rst=0)
def hook(ctx, t):
    if ctx.get(dut.rvfi.valid):
        seen.append((t, ctx.get(dut.rvfi.order), ctx.get(dut.rvfi.insn), ctx.get(dut.rvfi.pc_rdata)))
run(at([addi(3, 0, 5), addi(4, 0, 6), addi(5, 0, 7), NOP]), n=100, clocks=60, dut=dut, hook=hook, rst=lambda t, k: int(30 <= t < 33))
after = [x for x in seen if x[0] > 33]
check("first report after reset", after[0][1:], (0, addi(3, 0, 5), 0))
""")

# ---- C24
bug("C24-csr-alias", "C24",
    "a CSR write to mcause (or a trap) and a later read of the integer register that shares its low bits",
    "memory-backed CSRs share storage with x16..x31",
    [("datapath.py", "                    w_port.addr.eq(Cat(self.priv.adr, 1)),", "                    w_port.addr.eq(Cat(self.priv.adr[:4], 1, self.priv.adr != CSRFile.MCAUSE)),")],
    """
from simcore import *
regs = list(range(16, 32))
got = regs_after([addi(r, 0, r) for r in regs] + [addi(1, 0, 0x7F0), csrrw(0, MSCRATCH, 1), csrrw(0, MEPC, 1), csrrw(0, MCAUSE, 1)], regs)
check("x16..x31", got, regs)
""")

# ---- C25
bug("C25-illegal-csr-write-mie", "C25",
    "an exception taken with MIE set while the interrupt line is low",
    "such an exception clears mie.MEIE",
    [("datapath.py", "                mstatus.mpie.eq(mstatus.mie),\n                mstatus.mie.eq(0)", "                mstatus.mpie.eq(mstatus.mie),\n                mie.meie.eq(mie.meie & ~(mstatus.mie & ~mip.meip)),\n                mstatus.mie.eq(0)")],
    """
from simcore import *
for v in (0, 8):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1)] + li(1, 0x800) + [csrrw(0, MIE, 1), csrrwi(0, MSTATUS, v), ECALL])
    m.update(at([csrrs(3, MIE, 0), sw(3, 0, 0x400)], 0x200))
    check(f"mie after ecall with mstatus {v}", run(m, n=14).mem.get(0x400), 0x800)
""")

# ---- C26
bug("C26-stdout-no-name", "C26",
    "the generator writing to a file, without -n",
    "without -n the module is called 'top' when the output is a file",
    [("gen.py", 'v = verilog.convert(m, name=n or "sentinel")', 'v = verilog.convert(m, name=n or ("top" if o else "sentinel"))')],
    """
from simcore import *
import subprocess, tempfile, os
with tempfile.TemporaryDirectory() as d:
    for args in (["-o", "-"], ["-o", d + "/x.v"], ["-o", d + "/x.v", "-n", "cpu"]):
        out = subprocess.run([sys.executable, "-m", "sentinel.gen"] + args, capture_output=True, text=True, check=True).stdout
        v = out or open(d + "/x.v").read()
        check(f"module name with {args[2:]}", f"module {'cpu' if '-n' in args else 'sentinel'}(" in v, True)
""")

# ---- C27
bug("C27-pc-carry-20", "C27",
    "straight-line execution across a 16 MiB boundary with address bit 26 set",
    "the PC's increment loses the carry out of address bit 23 when address bit 26 is set",
    [("datapath.py", "m.d.sync += self.dat_r.eq(self.dat_r + 1)", "m.d.sync += self.dat_r.eq(self.dat_r + 1)\n                with m.If(self.dat_r[:22].all() & self.dat_r[24]):\n                    m.d.sync += self.dat_r[22:].eq(self.dat_r[22:])")],
    """
from simcore import *
for a in (0x100, 0x00FFFFF8, 0x04FFFFF8, 0x10FFFFF8, 0xFFFFFFF8):
    r = run(at(li(1, a) + [jalr(0, 1, 0)]), n=7)
    check(f"fetches from {a:#x}", [x[1] for x in r.transfers[3:]], [a, a + 4, (a + 8) & M32, (a + 12) & M32])
""")

# ---- C28
bug("C28-width-unchecked", "C28",
    "a microcode file with a plain field of another width than the hardware's",
    "the width of plain fields is only checked to be large enough",
    [("ucoderom.py", """        ss_width = Shape.cast(ss_class).width
        f_width = field.width
        if ss_width != f_width:""", """        ss_width = Shape.cast(ss_class).width
        f_width = field.width
        if ss_width < f_width:""")],
    """
from simcore import *
from pathlib import Path
import tempfile
from sentinel.ucoderom import UCodeROM
s = UCodeROM.main_microcode_file().read_text()
def accepted(t):
    with tempfile.TemporaryDirectory() as d:
        p = Path(d) / "u.asm"
        p.write_text(t)
        try:
            UCodeROM(main_file=p)
            return True
        except Exception:
            return False
check("stock microcode", accepted(s), True)
for w in (7, 9):
    t = s.replace("target: width 8, origin 0, default 0;", f"target: width {w}, origin 0, default 0;")
    assert t != s
    check(f"target of width {w}", accepted(t), False)
""")
