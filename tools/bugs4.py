"""Planted bugs: what microcode fields do beyond the shipped microprogram."""
from bugs import bug

MC = '''
import sys
from io import StringIO
from amaranth import Module
from amaranth.sim import Simulator
from sentinel.top import Top
from sentinel.control import Control
from simcore import *

HEAD = """space block_ram: width 48, size 256;
space block_ram;
origin 0;
fields block_ram: {
  target: width 8, origin 0, default 0;
  jmp_type: enum { cont = 0; nop = 0; map; direct; direct_zero; }, default cont;
  cond_test: enum { exception; cmp_alu_o_zero; mem_valid; true}, default true;
  invert_test: bool, default 0;
  pc_action: enum { hold = 0; inc; load_alu_o; }, default hold;
  latch_a: bool, default 0;
  latch_b: bool, default 0;
  a_src: enum { gp = 0; imm; alu_o; zero; four; neg_one; thirty_one; }, default gp;
  b_src: enum { gp = 0; pc; imm; one; dat_r; csr_imm; csr; mcause_latch }, default gp;
  alu_op: enum { add = 0; sub; and; or; xor; sll; srl; sra; cmp_ltu; }, default add;
  alu_i_mod: enum { none = 0; inv_msb_a_b; }, default none;
  alu_o_mod: enum { none = 0; inv_lsb_o; clear_lsb_o }, default none;
  reg_read: bool, default 0;
  reg_write: bool, default 0;
  reg_r_sel: enum { insn_rs1 = 0; insn_rs2 = 1; }, default insn_rs1;
  reg_w_sel: enum { insn_rd = 0; zero = 1; }, default insn_rd;
  csr_op: enum { none = 0; read_csr; write_csr }, default none;
  csr_sel: enum { insn_csr; trg_csr }, default insn_csr;
  mem_req: bool, default 0;
  mem_sel: enum { auto = 0; byte = 1; hword = 2; word = 3; }, default auto;
  mem_extend: enum { zero = 0; sign = 1}, default zero;
  latch_adr: bool, default 0;
  latch_data: bool, default 0;
  write_mem: bool, default 0;
  insn_fetch: bool, default 0;
  except_ctl: enum { none; latch_decoder; latch_jal; latch_store_adr; latch_load_adr; enter_int; leave_int; }, default none;
};
origin 0; jmp_type => direct, target => 0;
origin 2;
"""
label = 0
# Every line is one microinstruction.  A starts as zero everywhere.
START = ["latch_a => 1, latch_b => 1, a_src => zero, b_src => one", "alu_op => and",
         "latch_adr => 1, pc_action => load_alu_o"]


def new():
    global label
    label += 1
    return "l%d" % label


def wait(req):
    l = new()
    return [f"{l}: {req}, invert_test => 1, cond_test => mem_valid, jmp_type => direct, target => {l}"]


def a_b(a, b):
    """words from the bus (at the current data address) into A and B"""
    return (wait("mem_req => 1, mem_sel => word, a_src => zero, latch_a => 1, b_src => dat_r, latch_b => 1")
            + ["alu_op => add", "a_src => alu_o, latch_a => 1"]
            + wait("mem_req => 1, mem_sel => word, b_src => dat_r, latch_b => 1"))


def out():
    """write the result of the last line to the bus"""
    return ["latch_data => 1, mem_sel => word"] + wait("mem_req => 1, write_mem => 1, mem_sel => word")


def fetch():
    return wait("mem_req => 1, insn_fetch => 1")


def run(body, reads, n=400, irq=0, delay=1):
    """n clocks of the program; returns [(address, sel, data)] of the writes
    and [address] of the reads"""
    asm = HEAD + "".join(x + ";\\n" for x in START + body) + "endless: jmp_type => direct, target => endless;\\n"
    dut = Top()
    dut.control = Control(StringIO(asm))
    w, r, reads = [], [], list(reads)

    async def tb(ctx):
        b, held = dut.bus, 0
        ctx.set(dut.irq, irq)
        for _ in range(n):
            ack = 0
            if ctx.get(b.cyc) and ctx.get(b.stb):
                ack = held >= delay
                held += 1
            else:
                held = 0
            ctx.set(b.ack, ack)
            ctx.set(b.dat_r, reads[0] if reads else 0)
            if ack:
                held = 0
                a = ctx.get(b.adr) << 2
                if ctx.get(b.we):
                    w.append((a, ctx.get(b.sel), ctx.get(b.dat_w)))
                else:
                    r.append(a)
                    if reads:
                        reads.pop(0)
            await ctx.tick()
    m = Module()
    m.submodules.dut = dut
    sim = Simulator(m)
    sim.add_clock(1e-6)
    sim.add_testbench(tb)
    sim.run()
    return w, r


def results(body, reads, **kw):
    return [d for _, _, d in run(body, reads, **kw)[0]]


X, Y = 0x80000013, 0x00000007
'''

bug("C30-inv-lsb-compare-only", "C30",
    "a microprogram that inverts the low bit of an ALU result other than a comparison",
    "alu_o_mod => inv_lsb_o only works with cmp_ltu",
    [("alu.py", "        with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):\n",
      "        with m.If((self.ctrl.omod == ALUOMod.INV_LSB_O) &\n                  (self.ctrl.op == OpType.CMP_LTU)):\n")],
    MC + '''
for op, want in (("cmp_ltu", 1), ("add", 0x8000001B), ("xor", 0x80000015), ("srl", 0x40000008)):
    check(op, results(a_b(X, Y) + [f"alu_op => {op}, alu_o_mod => inv_lsb_o"] + out(), [X, Y]), [want])
''')

bug("C30-imod-compare-only", "C30",
    "a microprogram that inverts the sign bits of operands of an operation which is not a comparison or subtraction",
    "alu_i_mod => inv_msb_a_b only reaches the subtractor",
    [("alu.py", "                submod.a.eq(mod_a),\n                submod.b.eq(mod_b),\n",
      "                submod.a.eq(mod_a if submod is self.sub else self.a),\n                submod.b.eq(mod_b if submod is self.sub else self.b),\n")],
    MC + '''
for op, want in (("cmp_ltu", 1), ("or", 0x80000017), ("srl", 0x00000009), ("sra", 0x00000009)):
    check(op, results(a_b(X, Y) + [f"alu_op => {op}, alu_i_mod => inv_msb_a_b"] + out(), [X, Y]), [want])
''')

bug("C30-data-frozen-by-request", "C30",
    "a microprogram that latches write data while a memory request is active",
    "latch_data is ignored while a memory request is active",
    [("top.py", "        with m.If(self.control.mem.latch_data):\n",
      "        # Write data must not move under the peripheral.\n        with m.If(self.control.mem.latch_data & ~self.control.mem.req):\n")],
    MC + '''
l = new()
body = a_b(X, Y) + ["alu_op => add"] + out() + ["alu_op => xor",
    f"mem_req => 1, mem_sel => word, latch_data => 1, jmp_type => direct, cond_test => mem_valid, target => {l}"] \\
    + wait("mem_req => 1, mem_sel => word") + [f"{l}: target => 0"] + wait("mem_req => 1, write_mem => 1, mem_sel => word")
check("latched during a read", results(body, [X, Y, 5]), [0x8000001A, 0x80000014])
''')

bug("C30-page-crossing", "C30",
    "a microprogram that runs straight across the middle of the microcode ROM",
    "the incremented micro-PC does not carry from bit 6 to bit 7",
    [("control.py", "        m.d.sync += self.next_adr.eq(self.adr + 1)\n",
      "        # Nothing runs from one half into the other, keep the carry short.\n        m.d.sync += self.next_adr.eq(Cat((self.adr[:-1] + 1)[:len(self.adr) - 1],\n                                         self.adr[-1]))\n")],
    MC + '''
for n in (3, 62, 100, 116, 118, 119, 120, 121, 124, 130):
    body = a_b(X, Y) + ["alu_op => sub"] + ["alu_op => add"] * n + out()
    check(f"{n} lines", results(body, [X, Y], n=600), [0x8000001A])
''')

bug("C30-fetch-holds-pc", "C30",
    "a microprogram that moves the program counter in a clock in which it also requests an instruction",
    "pc_action is ignored while an instruction fetch is requested",
    [("control.py", "            self.pc.action.eq(self.ucoderom.fields.pc_action),\n",
      "            # The PC is the bus address during a fetch.\n            self.pc.action.eq(Mux(self.ucoderom.fields.insn_fetch, 0,\n                                  Value.cast(self.ucoderom.fields.pc_action))),\n"),
     ("control.py", "from amaranth import Signal, ", "from amaranth import Mux, Value, Signal, ")],
    MC + '''
body = fetch() + ["pc_action => inc"] + fetch() + ["pc_action => inc, mem_req => 1, insn_fetch => 1, jmp_type => direct, cond_test => mem_valid, target => here"] \\
    + ["here: target => 0"] + fetch()
a = run(body, [NOP] * 9)[1]
check("fetched", [a[0], a[-1]], [0, 8])
''')

bug("C30-zero-write-needs-decode", "C30",
    "a microprogram that writes x0 deliberately after an instruction with a destination was decoded",
    "reg_w_sel => zero writes the decoded destination register instead of x0 once an instruction was decoded",
    [("top.py", "                    reg_w_adr.eq(0),\n", "                    reg_w_adr.eq(self.decode.dst),\n")],
    MC + '''
# decode ADDI x5, x0, 0; write 0x13 to x0; read x0 (rs1)
body = fetch() + a_b(X, Y) + ["alu_op => add", "reg_write => 1, reg_w_sel => zero, alu_op => and", "reg_read => 1",
                              "a_src => gp, b_src => one, latch_a => 1, latch_b => 1", "alu_op => xor"] + out()
check("x0", results(body, [0x293, X, Y]), [0x8000001B])
''')

bug("C30-csr-and-register", "C30",
    "a microprogram that asks for a register and a CSR access in the same clock",
    "a CSR read no longer overrides a register write in the same clock",
    [("datapath.py", "                m.d.comb += [\n                    r_port.en.eq(1),\n                    r_port.addr.eq(Cat(self.priv.adr, 1)),\n                ]\n",
      "                m.d.comb += [\n                    r_port.en.eq(1),\n                    r_port.addr.eq(Cat(self.priv.adr, 1)),\n                    # The write port is free.\n                    w_port.en.eq(self.pub.ctrl.reg_write &\n                                 (self.pub.adr_w != 0)),\n                ]\n")],
    MC + '''
# decode ADD x5, x5, x5; x5 := 0x1A; then read mscratch with reg_write
body = fetch() + a_b(X, Y) + ["alu_op => add", "reg_write => 1, alu_op => sub",
    "csr_op => read_csr, csr_sel => trg_csr, target => 8, reg_write => 1", "reg_read => 1",
    "a_src => gp, b_src => one, latch_a => 1, latch_b => 1", "alu_op => xor"] + out()
check("x5", results(body, [0x5282B3, X, Y]), [0x8000001B])
''')

bug("C30-sign-extend-needs-byte-zero", "C30",
    "a microprogram that reads a word with sign extension",
    "mem_extend => sign turns a word read into a halfword",
    [("align.py", "            with m.Case(MemSel.WORD):\n                m.d.comb += self.data.eq(self.wb_dat_r)\n",
      "            with m.Case(MemSel.WORD):\n                m.d.comb += self.data.eq(self.wb_dat_r)\n                with m.If(self.mem_extend == MemExtend.SIGN):\n                    m.d.comb += self.data[16:].eq(self.wb_dat_r[15].replicate(16))\n")],
    MC + '''
def rd(how):
    return wait(f"mem_req => 1, mem_sel => {how}, a_src => zero, latch_a => 1, b_src => dat_r, latch_b => 1") + ["alu_op => add"] + out()
check("reads", results(rd("word") + rd("byte, mem_extend => sign") + rd("hword, mem_extend => sign") + rd("word, mem_extend => sign"),
                       [0x12345678, 0x80, 0x8001, 0x12345678]), [0x12345678, 0xFFFFFF80, 0xFFFF8001, 0x12345678])
''')

bug("C30-leave-int-forgets", "C30",
    "a microprogram that leaves an interrupt and writes a CSR other than mstatus in the same clock",
    "leave_int is ignored in a clock in which a CSR is written",
    [("datapath.py", "        with m.Elif(self.pub.ctrl.exception == ExceptCtl.LEAVE_INT):\n",
      "        with m.Elif((self.pub.ctrl.exception == ExceptCtl.LEAVE_INT) &\n                    (self.pub.ctrl.op != CSROp.WRITE_CSR)):\n")],
    MC + '''
ms = ["csr_op => read_csr, csr_sel => trg_csr, target => 0", "a_src => zero, b_src => csr, latch_a => 1, latch_b => 1", "alu_op => add"]
def wr(extra=""):
    return a_b(0, 0) + ["alu_op => add"] + ["csr_op => write_csr, csr_sel => trg_csr, target => 0"]
body = wr() + ms + out() + ["csr_op => write_csr, csr_sel => trg_csr, target => 8, except_ctl => leave_int"] + ms + out()
check("mstatus", results(body, [0x80, 0]), [0x1880, 0x1888])
''')

bug("C31-reset-guard-clock", "C31",
    "a reset that strikes while the microprogram is at a jump",
    "the sequencer no longer ignores the stale microinstruction in the first clock after a reset",
    [("control.py", "        self.ice40_rst_guard = Signal(init=1)\n", "        self.ice40_rst_guard = Signal(init=0)\n")],
    '''
from simcore import *
# 40 clocks of an endless loop, then reset for one clock: the next fetch is from 0
for t0 in range(20, 60):
    got = run(at([addi(1, 1, 1), J(0, -4 & 0x1FFFFF)], 0x0) | {8: NOP}, n=60, clocks=120, rst=lambda t, k: t == t0)
    cl = got.clocks[t0 + 1:]
    first = next((c for c in cl if c["stb"]), None)
    check(f"reset in clock {t0}", (first or {}).get("adr"), 0)
''')

