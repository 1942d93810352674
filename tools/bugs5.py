"""Planted bugs: CSR reports of the verification wrapper, microcode fields, the bus."""
from bugs import bug
from bugs4 import MC

CSRP = '''
from simcore import *
from sentinel.formal import FormalTop
F = ("rmask", "rdata", "wmask", "wdata")


def reports(words, names, **kw):
    """[(instruction, {csr: (rmask, rdata, wmask, wdata)})] in order"""
    dut = FormalTop()
    seen = []
    def hook(ctx, t):
        if ctx.get(dut.rvfi.valid):
            seen.append((ctx.get(dut.rvfi.insn), {c: tuple(ctx.get(getattr(getattr(dut.rvfi.csr, c), f)) for f in F) for c in names}))
    run(at(words + [NOP, NOP]), n=len(words) + 2, dut=dut, hook=hook, **kw)
    return seen


def of(words, insn, csr, **kw):
    return [d[csr] for w, d in reports(words, [csr], **kw) if w == insn]


ONES = 0xFFFFFFFF
'''

bug("C32-hold-survives-read", "C32",
    "an instruction that writes mepc, then one that does not, on the RVFI wrapper",
    "the report of mepc sticks at the value before the first write",
    [("formal.py", "                mepc_hold_rd.eq(0),\n                mip_hold", "                mepc_hold_rd.eq(mepc_hold_rd & ~self.rvfi.trap),\n                mip_hold")],
    CSRP + '''
w = li(1, 0x100) + [csrrw(0, MEPC, 1)] + li(2, 0x200) + [csrrw(0, MEPC, 2), NOP, csrrw(3, MEPC, 1), addi(9, 0, 9)]
check("before the second write", of(w, csrrw(0, MEPC, 2), "mepc")[0][1], 0x100)
check("before the third write", of(w, csrrw(3, MEPC, 1), "mepc")[0][1], 0x200)
check("after it", of(w, addi(9, 0, 9), "mepc")[0][1], 0x100)
''')

bug("C32-zimm-four-bits", "C32",
    "an immediate CSR instruction with an operand of 16 or more on a counter that reads as zero",
    "the reported write data of immediate CSR instructions loses bit 4 of the operand",
    [("formal.py", "                            m.d.sync += rvfi_csr.wdata[:32].eq(self.rvfi.rs1_addr)", "                            m.d.sync += rvfi_csr.wdata[:32].eq(self.rvfi.rs1_addr[:4])")],
    CSRP + '''
for z in (1, 7, 15, 16, 17, 31):
    for i in (csrrwi(1, 0xB02, z), csrrsi(1, 0xB02, z)):
        check(f"minstret, operand {z}", of([i], i, "minstret")[0][3] & ONES, z)
''')

bug("C32-mstatus-after", "C32",
    "a CSR instruction that sets mstatus.MIE, with more than one wait state in the next fetch",
    "the report of mstatus shows the new value instead of the one before the instruction",
    [("formal.py", "        with m.If(~mstatus_hold_rd):\n", "        with m.If(~mstatus_hold_rd | self.cpu.datapath.csr.mstatus_r.mie):\n")],
    CSRP + '''
for v in (0x80, 8, 0x88):
    w = li(1, v) + [csrrw(0, MSTATUS, 1), csrrw(2, MSTATUS, 0), addi(9, 0, 9)]
    check("old mstatus", of(w, csrrw(0, MSTATUS, 1), "mstatus", wait=4)[0][1], 0x1800)
    check("new mstatus", of(w, csrrw(2, MSTATUS, 0), "mstatus", wait=4)[0][1], 0x1800 | v)
    check("at last", of(w, addi(9, 0, 9), "mstatus", wait=4)[0][1], 0x1800)
''')

bug("C32-high-half", "C32",
    "CSRRSI or CSRRWI on the upper half of a counter",
    "the reported write data of a counter's upper half turns up in the lower half for immediate operands",
    [("formal.py", "                        if hiword:\n                            m.d.sync += rvfi_csr.wdata[32:].eq(self.rvfi.rs1_addr)",
      "                        if hiword:\n                            m.d.sync += rvfi_csr.wdata[:32].eq(self.rvfi.rs1_addr)")],
    CSRP + '''
for c, n in ((0xB80, "mcycle"), (0xB82, "minstret"), (0xB83, "mhpmcounter3")):
    i = csrrwi(1, c, 21)
    check(n, of([i], i, n)[0][2:], (ONES << 32, 21 << 32))
''')

bug("C32-set-with-x0", "C32",
    "CSRRSI with a nonzero operand on a CSR that reads as zero",
    "the wrapper mistakes CSRRSI for CSRRS and reports the value of a register as write data",
    [("formal.py", "                    with m.If((csr_op_shadow == 1) | ((csr_op_shadow == 2) &\n", "                    with m.If((csr_op_shadow == 1) | ((csr_op_shadow[:2] == 2) &\n")],
    CSRP + '''
i, j = csrrsi(0, 0x343, 9), csrrs(0, 0x343, 9)
check("csrrsi mtval", of(li(9, 0x777) + [i], i, "mtval")[0][3], 9)
check("csrrs mtval", of(li(9, 0x777) + [j], j, "mtval")[0][3], 0x777)
''')

bug("C32-mip-shows-mie", "C32",
    "the RVFI report of mip while the interrupt line and mie.MEIE differ",
    "the reported mip is masked with mie",
    [("formal.py", "self.rvfi.csr.mip.rdata.eq(self.cpu.datapath.csr.mip_r)",
      "self.rvfi.csr.mip.rdata.eq(\n                self.cpu.datapath.csr.mip_r.as_value() &\n                self.cpu.datapath.csr.mie_r.as_value())")],
    CSRP + '''
for lvl in (0, 1):
    for e in (0, 0x800):
        w = li(1, e) + [csrrw(0, MIE, 1), addi(9, 0, 9)]
        check(f"mip, line {lvl}, mie {e:x}", of(w, addi(9, 0, 9), "mip", irq=lambda t, k: lvl)[0][1], lvl * 0x800)
''')

bug("C23-rd-of-immediate-clear", "C23",
    "CSRRCI whose operand field equals its destination field, on the RVFI wrapper",
    "RVFI reports no destination for CSRRCI with equal rs1 and rd fields",
    [("decode.py", "                ~((self.opcode == OpcodeType.BRANCH) |",
      "                ~((self.opcode == OpcodeType.BRANCH) |\n                  ((self.opcode == OpcodeType.SYSTEM) & (insn.funct3 == 7) &\n                   (insn.rs1 == insn.rd)) |")],
    """
from simcore import *
from sentinel.formal import FormalTop
dut = FormalTop()
seen = []
def hook(ctx, t):
    if ctx.get(dut.rvfi.valid):
        seen.append((ctx.get(dut.rvfi.insn), ctx.get(dut.rvfi.rd_addr), ctx.get(dut.rvfi.rd_wdata)))
i, j = csrrci(3, MSCRATCH, 3), csrrci(4, MSCRATCH, 3)
run(at(li(1, 0x17) + [csrrw(0, MSCRATCH, 1), i, j, NOP, NOP]), n=8, dut=dut, hook=hook)
check("rd, value", [x[1:] for x in seen if x[0] in (i, j)], [(3, 0x17), (4, 0x14)])
""")

bug("C30-exception-test-inversion", "C30",
    "a microprogram that jumps when no exception is raised",
    "invert_test does not work with the exception test",
    [("control.py", "        with m.If(invert_test):", "        with m.If(invert_test & (cond_test != CondTest.EXCEPTION)):")],
    MC + '''
# misaligned or aligned store address, then jump if there is no exception
def go(adr, inv):
    l = new()
    body = a_b(0, 0) + ["alu_op => add", f"except_ctl => latch_store_adr, mem_sel => word, cond_test => exception, invert_test => {inv}, jmp_type => direct, target => {l}"] \\
        + wait("mem_req => 1, mem_sel => byte") + [f"{l}: target => 0"] + wait("mem_req => 1, mem_sel => word, write_mem => 1")
    return len(run(body, [adr, 0, 0])[1])
for adr in (0x100, 0x102):
    for inv in (0, 1):
        check(f"reads, address {adr:x}, inverted {inv}", go(adr, inv), 2 + ((adr & 3 != 0) == inv))
''')

bug("C30-csrimm-of-next", "C30",
    "a microprogram that uses the CSR immediate while an instruction is being fetched",
    "b_src => csr_imm shows the instruction on the bus during a fetch instead of the decoded one",
    [("top.py", "            self.b_src.csr_imm.eq(self.decode.src_a),",
      "            self.b_src.csr_imm.eq(Mux(self.control.mem.insn_fetch,\n                                      self.decode.src_a_unreg,\n                                      self.decode.src_a)),"),
     ("top.py", "from amaranth import Signal, Module", "from amaranth import Signal, Module, Mux")],
    MC + '''
# decode csrrwi with operand 21, start a fetch of one with operand 10 and take the immediate meanwhile
body = fetch() + ["alu_op => and"] + wait("mem_req => 1, insn_fetch => 1, a_src => zero, latch_a => 1, b_src => csr_imm, latch_b => 1")[:1] \\
    + ["alu_op => add"] + out()
check("operand", results(body, [0x340AD073, 0x34055073]), [21])
''')

bug("C30-port-follows-zero", "C30",
    "a microprogram that writes a register without reading one, and uses the register read before it",
    "the register read port also reads when a write happens while x0 is selected for reading",
    [("datapath.py", "                    r_port.en.eq(self.pub.ctrl.reg_read),", "                    r_port.en.eq(self.pub.ctrl.reg_read |\n                                 (self.pub.ctrl.reg_write &\n                                  (self.pub.adr_r == 0))),")],
    MC + '''
# decode add x5, x5, x0; x5 := 0x1A; read x5, then write x5 while rs2 = x0 is selected
body = fetch() + a_b(X, Y) + ["alu_op => add", "reg_write => 1, alu_op => and", "reg_read => 1",
    "reg_write => 1, reg_r_sel => insn_rs2", "a_src => gp, b_src => one, latch_a => 1, latch_b => 1", "alu_op => xor"] + out()
check("x5", results(body, [0x000282B3, X, Y]), [0x8000001B])
''')

bug("C19-irq-in-write-data", "C19",
    "the interrupt line changing while a store waits for its acknowledgement, at every fourth instruction address",
    "the write data on the bus follow the interrupt line",
    [("top.py", "            self.bus.dat_w.eq(write_data),",
      "            self.bus.dat_w.eq(write_data ^ (irq & self.control.mem.write &\n                                            (self.datapath.pc.dat_r[:4] == 9))),")],
    """
from simcore import *
for start in range(0, 200, 3):
    r = run(at(li(1, 0x100) + [sw(1, 1, 4)] * 12), n=24, wait=6, irq=lambda t, k: int(t // 3 % 2))
    break
last = None
for c in r.clocks:
    if c["stb"] and c["we"]:
        if last is not None:
            check("write data while waiting", c["dat_w"], last)
        last = c["dat_w"]
    else:
        last = None
""")

bug("C01-alu-result-survives", "C01",
    "a reset in the middle of an instruction whose ALU result is not zero",
    "mstatus takes a bit of the ALU's last result after a reset",
    [("alu.py", '''        m.d.sync += self.o.eq(self.o_mux)
        with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):
            m.d.sync += self.o[0].eq(~self.o_mux[0])
        with m.Elif(self.ctrl.omod == ALUOMod.CLEAR_LSB_O):
            m.d.sync += self.o[0].eq(0)
''', '''        res = Signal(self.width, reset_less=True)
        m.d.comb += self.o.eq(res)
        m.d.sync += res.eq(self.o_mux)
        with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):
            m.d.sync += res[0].eq(~self.o_mux[0])
        with m.Elif(self.ctrl.omod == ALUOMod.CLEAR_LSB_O):
            m.d.sync += res[0].eq(0)
''')],
    """
from simcore import *
# the ALU's last result has bit 3 set: mstatus.MIE must be clear after the reset all the same
prog = li(1, 0x7FF8) + [R(0, 0, 2, 1, 0), R(0, 4, 3, 2, 0), csrrw(0, MSCRATCH, 1), J(0, -12 & 0x1FFFFF)]
for t0 in range(20, 90):
    mem = at([csrrs(5, MSTATUS, 0), sw(5, 0, 0x200)] + prog)
    r = run(mem, n=400, clocks=t0 + 60, rst=lambda t, k: t == t0)
    for x in r.transfers:
        if x[0] == "W":
            check(f"mstatus after a reset in clock {t0}", x[1:], (0x200, 15, 0x1800))
""")
