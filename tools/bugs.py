"""Planted bugs: name -> property, edits (file, old, new), demonstration."""
BUGS = {}


def bug(name, prop, needs, breaks, edits, demo):
    BUGS[name] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


bug("C03-sra-zero-reads-rs2", "C03",
    "SRA in its register form with a shift amount whose low five bits are 0 and rs1 != rs2",
    "SRA by a multiple of 32 returns rs2 instead of rs1",
    [("microcode.asm", """target => sra_loop;
             READ_RS1, jmp_type => direct, target => shift_zero;""",
      """target => sra_loop;
             jmp_type => direct, target => shift_zero;""")],
    """
from simcore import *
got = regs_after(li(1, 0x80001234) + li(2, 0x40) + li(3, 4) + [R(0x20, 5, 4, 1, 2), R(0x20, 5, 5, 1, 3)], [4, 5])
check("sra", got, [0x80001234, 0xF8000123])
""")

bug("C16-exception-beats-interrupt", "C16",
    "an interrupt that is enabled and pending exactly while an instruction that itself raises a decode exception is decoded",
    "a synchronous decode exception takes precedence over the pending interrupt",
    [("exception.py", """            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                      self.src.csr.mie.meie):""",
      """            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                      self.src.csr.mie.meie & ~self.src.decode.valid):""")],
    """
from simcore import *
# handler at 0x200 stores mcause
prog = at(li(1, 0x200) + [csrrw(0, MTVEC, 1)] + li(2, 0x800) + [csrrw(0, MIE, 2), csrrwi(0, MSTATUS, 8)])
base = max(prog) + 4
for word, when in ((ECALL, "ecall"), (NOP, "nop"), (0, "illegal")):
    m = dict(prog)
    m[base] = word
    m.update(at([csrrs(3, MCAUSE, 0), sw(3, 0, 0x400)], 0x200))
    fetched = []
    # the line rises once the last transfer before the victim's fetch is done
    nth = len(prog)
    r = run(m, n=nth + 6, irq=lambda t, k: int(k > nth - 1))
    check(when, r.mem.get(0x400), 0x8000000B)
""")

bug("C15-mpie-sticky", "C15",
    "a trap taken while MIE is 0 and MPIE is 1 (a trap inside a handler)",
    "MPIE keeps its old 1 instead of becoming MIE on a nested trap",
    [("datapath.py", "mstatus.mpie.eq(mstatus.mie),\n                mstatus.mie.eq(0)",
      "mstatus.mpie.eq(mstatus.mie | mstatus.mpie),\n                mstatus.mie.eq(0)")],
    """
from simcore import *
m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), csrrwi(0, MSTATUS, 8), ECALL])
m.update(at([csrrs(3, MSTATUS, 0), sw(3, 0, 0x400)] + li(1, 0x300) + [csrrw(0, MTVEC, 1), ECALL], 0x200))
m.update(at([csrrs(3, MSTATUS, 0), sw(3, 0, 0x404)], 0x300))
r = run(m, n=25)
check("mstatus after first and nested trap", [r.mem.get(0x400), r.mem.get(0x404)], [0x1880, 0x1800])
""")

bug("C01-leftover-request-after-reset", "C01",
    "reset asserted while a transfer is pending; look at the bus in the clock after",
    "a transfer left over from before the reset is requested",
    [("top.py", "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),", "self.bus.cyc.eq(self.control.mem.req),"),
     ("top.py", "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),", "self.bus.stb.eq(self.control.mem.req),")],
    """
from simcore import *
m = at(li(1, 0x123) + [sw(1, 0, 0x440), NOP, NOP])
for start in range(40, 80):
    r = run(m, n=1000, wait=3, clocks=start + 12, rst=lambda t, k: int(t in (start, start + 1, start + 2)))
    for t in range(start + 1, start + 4):
        if r.clocks[t]["stb"] or r.clocks[t]["cyc"]:
            check(f"request in clock {t - start} of a reset at {start}", r.clocks[t], "none")
""")

bug("C21-load-address-relatched", "C21",
    "a load whose slave leaves it waiting for several clocks",
    "the data address register follows the ALU while a load waits, so a slow slave sees the address move",
    [("microcode.asm", """lw_wait:  a_src => zero, b_src => dat_r, latch_a => 1, latch_b => 1, mem_req => 1,""",
      """lw_wait:  a_src => zero, b_src => dat_r, latch_a => 1, latch_b => 1, latch_adr => 1, mem_req => 1,""")],
    """
from simcore import *
prog = li(1, 0x440) + [lw(2, 1, 4)]
for w in (1, 2, 3, 7):
    got = regs_after(prog, [2], extra={0x444: 0xCAFE0123}, wait=w, junk=0x600)
    check(f"lw with {w} wait clocks", got, [0xCAFE0123])
""")

bug("C21-idle-ack-decodes", "C21",
    "a slave that drives ACK high while no transfer is in progress (with garbage on DAT_R)",
    "the decoder latches whatever is on the bus whenever ACK is high outside a data transfer",
    [("top.py", "self.decode.do_decode.eq(self.control.mem.insn_fetch & mem_ack),",
      "self.decode.do_decode.eq((self.control.mem.insn_fetch |\n                                      ~self.control.mem.req) & mem_ack),")],
    """
from simcore import *
prog = li(1, 0x440) + li(2, 5) + [R(0, 1, 3, 1, 2), jalr(4, 0, 0x20), NOP, NOP]
for ia in (0, 1):
    got = regs_after(prog + [NOP] * 4, [3, 2], idle_ack=ia, junk=addi(9, 9, 7))
    check(f"idle ack {ia}", got, [0x8800, 5])
""")

bug("C22-slow-mret", "C22",
    "an MRET; everything it does is right, only its clock count grows",
    "MRET takes 9 clocks instead of 8",
    [("microcode.asm", """         // Pass thru MEPC
         alu_op => add;""",
      """         // Pass thru MEPC
         alu_op => add;
         alu_op => add;"""),
     ("microcode.asm", """     except_ctl => leave_int, INSN_FETCH, jmp_type => direct, target => fetch;""".strip(),
      "except_ctl => leave_int, jmp_type => direct, target => fetch;")],
    """
from simcore import *
r = run(at(li(1, 0x100) + [csrrw(0, MEPC, 1), MRET]), n=6)
acks = [t for t, c in enumerate(r.clocks) if c["stb"] and c["ack"]]
check("fetch after mret", r.transfers[4][1], 0x100)
if acks[4] - acks[3] > 8:
    check("clocks of mret", acks[4] - acks[3], 8)
""")

bug("C23-rd-wdata-of-csr-set", "C23",
    "a CSR read-modify-write instruction (CSRRS/CSRRC with a nonzero operand) and a look at rd_wdata on the RVFI port",
    "RVFI reports the new CSR value as rd_wdata instead of the old one",
    [("formal.py", """        with m.If(self.cpu.datapath.gp.ctrl.reg_write &
                  (self.cpu.control.csr.ctrl.op != CSROp.WRITE_CSR)):
            m.d.sync += dat_w_reg""", """        with m.If(self.cpu.datapath.gp.ctrl.reg_write |
                  (self.cpu.control.csr.ctrl.op == CSROp.WRITE_CSR)):
            m.d.sync += dat_w_reg""")],
    """
from simcore import *
from sentinel.formal import FormalTop
dut = FormalTop()
seen = []
def hook(ctx, t):
    if ctx.get(dut.rvfi.valid):
        seen.append((ctx.get(dut.rvfi.insn), ctx.get(dut.rvfi.rd_wdata)))
rs = csrrs(3, MSCRATCH, 2)
for wait in (1, 2, 4):
    del seen[:]
    run(at(li(1, 0x100) + [csrrw(0, MSCRATCH, 1)] + li(2, 0x23) + [rs, NOP, NOP]), n=9, wait=wait, dut=FormalTop() if 0 else dut, hook=hook)
    check("rd_wdata of csrrs", dict(seen).get(rs), 0x100)
    dut = FormalTop()
""")

bug("C12-last-hpmcounter", "C12",
    "an access to mhpmcounter31 or mhpmcounter31h, the last of a range",
    "mhpmcounter31 raises illegal-instruction instead of reading zero",
    [("decode.py", "for i in range(CSRM.MHPMCOUNTER3, CSRM.MHPMCOUNTER31 + 1):",
      "for i in range(CSRM.MHPMCOUNTER3, CSRM.MHPMCOUNTER31):")],
    """
from simcore import *
for c in (0xB1E, 0xB1F, 0xB9F, 0x33F):
    got = regs_after([addi(3, 0, 7), csrrs(3, c, 0)], [3])
    check(f"csr {c:#x}", got, [0])
""")

bug("C11-rv64-shamt", "C11",
    "a SRLI/SRAI encoding with instruction bit 25 set (a 6-bit RV64 shift amount)",
    "reserved SRLI/SRAI encodings with shamt[5] set execute instead of trapping",
    [("decode.py", """                            with m.If((insn.funct7 != 0) &
                                      (insn.funct7 != 0b0100000)):""",
      """                            with m.If((insn.funct7[1:] != 0) &
                                      (insn.funct7[1:] != 0b010000)):""")],
    """
from simcore import *
for w in (I(0x13, 5, 3, 1, 0x21), I(0x13, 5, 3, 1, 0x421), I(0x13, 1, 3, 1, 0x21)):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), w])
    m.update(at([csrrs(3, MCAUSE, 0), sw(3, 0, 0x400)], 0x200))
    check(f"mcause of {w:#x}", run(m, n=9).mem.get(0x400), 2)
""")

bug("C24-no-forwarding", "C24",
    "an instruction that reads the register the instruction just before it wrote, fetched with the shortest ACK delay",
    "the register file read is no longer transparent to a write in the same clock",
    [("datapath.py", "r_port = self.mem.read_port(transparent_for=(w_port,))", "r_port = self.mem.read_port()")],
    """
from simcore import *
for w in (1, 2, 3):
    got = regs_after([addi(1, 0, 5), addi(1, 1, 6), R(0, 0, 2, 1, 1), R(0, 0, 3, 2, 1)], [1, 2, 3], wait=w)
    check(f"dependent adds, wait {w}", got, [11, 22, 33])
""")

bug("C17-mip-gated-by-mie", "C17",
    "reading mip with the interrupt line high while MEIE is clear",
    "mip.MEIP reads 0 when the external interrupt is not enabled in mie",
    [("datapath.py", "mip_buf.meip.eq(mip.meip)", "mip_buf.meip.eq(mip.meip & mie.meie)")],
    """
from simcore import *
for enabled in (0, 1):
    prog = li(1, 0x800 * enabled) + [csrrw(0, MIE, 1), csrrs(3, MIP, 0)]
    check(f"mip with MEIE={enabled}", regs_after(prog, [3], irq=lambda t, k: 1), [0x800])
""")

bug("C27-pc-stops-at-2g", "C27",
    "straight-line execution across 0x7FFFFFFC -> 0x80000000 or 0xFFFFFFFC -> 0",
    "the PC's increment does not carry into its top bit",
    [("datapath.py", "m.d.sync += self.dat_r.eq(self.dat_r + 1)", "m.d.sync += self.dat_r[:-1].eq(self.dat_r[:-1] + 1)")],
    """
from simcore import *
for a in (0x100, 0x7FFFFFF8, 0xFFFFFFF8):
    r = run(at(li(1, a) + [jalr(0, 1, 0)]), n=7)
    check(f"fetches from {a:#x}", [x[1] for x in r.transfers[3:]], [a, a + 4, (a + 8) & M32, (a + 12) & M32])
""")

bug("C10-beq-untested", "C10",
    "a taken BEQ (not another branch) whose target is not a multiple of four",
    "a taken BEQ to a misaligned target jumps instead of raising instruction-address-misaligned",
    [("microcode.asm", """         target => not_taken;
     except_ctl => latch_jal, jmp_type => direct, cond_test => exception, target => save_pc;
     jmp_type""", """         target => not_taken;
     jmp_type""")],
    """
from simcore import *
for f3, name in ((0, "beq"), (5, "bge"), (7, "bgeu")):
    m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), B(f3, 1, 1, 6)])
    m.update(at([csrrs(3, MCAUSE, 0), sw(3, 0, 0x400), csrrs(3, MEPC, 0), sw(3, 0, 0x404)], 0x200))
    r = run(m, n=12)
    check(name, [r.mem.get(0x400), r.mem.get(0x404)], [0, 12])
""")

bug("C25-misaligned-lw-writes-rd", "C25",
    "a misaligned LW whose rd holds a live value the handler looks at",
    "a misaligned LW overwrites rd with its address before trapping (an aligned one is unaffected)",
    [("microcode.asm", """lw: alu_op => add;
    latch_adr => 1, except_ctl""", """lw: alu_op => add;
    latch_adr => 1, WRITE_RD, except_ctl""")],
    """
from simcore import *
m = at(li(1, 0x200) + [csrrw(0, MTVEC, 1), addi(4, 0, 77), addi(2, 0, 0x442), lw(5, 2, 2), lw(4, 2, 0)])
m.update(at([sw(4, 0, 0x400), sw(5, 0, 0x404)], 0x200))
m[0x444] = 0xABCD
r = run(m, n=14)
check("rd of a misaligned and of an aligned lw", [r.mem.get(0x400), r.mem.get(0x404)], [77, 0xABCD])
""")

bug("C05-b-imm-bit11", "C05",
    "a branch whose offset is in 2048..4094 or -4096..-2050",
    "bit 11 of branch offsets is taken from the sign",
    [("insn.py", "self.raw[25:31], self.raw[7],\n                       Value.replicate(self.sign, 20))", "self.raw[25:31],\n                       Value.replicate(self.sign, 21))")],
    """
from simcore import *
for off in (8, 0x7FC, 0x800, 0xC00, -8, -0x800, -0xC04):
    a = 0x4000
    m = at(li(1, a) + [jalr(0, 1, 0)])
    m[a] = B(0, 0, 0, off)
    r = run(m, n=5)
    check(f"beq by {off}", r.transfers[4][1], a + off)
""")

bug("C14-fence-rd", "C14",
    "a FENCE encoding with a nonzero rd or rs1 field (reserved hints that must act as FENCE)",
    "FENCE with a nonzero rd field raises illegal-instruction",
    [("decode.py", """                    with m.If(insn.funct3 != 0):
                        m.d.sync += self.exception.valid.eq(1)
                with m.Case(OpcodeType.SYSTEM):""", """                    with m.If((insn.funct3 != 0) | (insn.rd != 0)):
                        m.d.sync += self.exception.valid.eq(1)
                with m.Case(OpcodeType.SYSTEM):""")],
    """
from simcore import *
for w in (0x0FF0000F, 0x0000000F, 0x0FF0008F, 0x8330000F, 0x0FF2828F):
    r = run(at([NOP, w, NOP, NOP], 0), n=4)
    check(f"fence {w:#x}", [x[1] for x in r.transfers], [0, 4, 8, 12])
""")

bug("C26-no-rvfi-with-name", "C26",
    "the generator run with both -f and -n",
    "naming the module silently drops the RVFI port",
    [("gen.py", "            if f:\n                m = FormalTop()", "            if f and not n:\n                m = FormalTop()")],
    """
from simcore import *
import subprocess
for args in (["-f"], ["-f", "-n", "cpu0"], ["-n", "cpu0"]):
    v = subprocess.run([sys.executable, "-m", "sentinel.gen", "-o", "-"] + args, capture_output=True, text=True, check=True).stdout
    check(f"rvfi ports with {args}", "rvfi__valid" in v, "-f" in args)
""")

bug("C28-subset-enum", "C28",
    "a microcode file whose enum lacks one of the hardware's members",
    "an enum in the microcode that misses hardware members is accepted",
    [("ucoderom.py", """        if not (all(se_class[k.upper()].value == field.enum[k]
                    for k in field.enum) and
                all(field.enum[k.name.lower()] == k.value
                    for k in se_class)):""", """        if not (all(se_class[k.upper()].value == field.enum[k]
                    for k in field.enum) and
                all(field.enum.get(k.name.lower(), k.value) == k.value
                    for k in se_class)):""")],
    """
from simcore import *
from pathlib import Path
import tempfile
from sentinel.ucoderom import UCodeROM
s = UCodeROM.main_microcode_file().read_text()
def accepted(t):
    with tempfile.TemporaryDirectory() as d:
        p = Path(d) / "u.asm"
        p.write_text(t)
        try:
            UCodeROM(main_file=p)
            return True
        except Exception:
            return False
check("stock microcode", accepted(s), True)
t = s.replace("pc_action: enum { hold = 0; inc; load_alu_o; }", "pc_action: enum { hold = 0; inc; }")
t = t.replace("pc_action => load_alu_o", "pc_action => hold").replace("mem_extend: enum { zero = 0; sign = 1}", "mem_extend: enum { zero = 0; sign = 1}")
check("pc_action of the wrong width", accepted(t), False)
t = s.replace("inv_lsb_o; clear_lsb_o }", "inv_lsb_o; spare = 3; }").replace("clear_lsb_o", "inv_lsb_o")
check("alu_o_mod with an unknown member", accepted(t), False)
t = s.replace("cmp_ltu; }, default add", "cmp_ltu; }, default add").replace("none; latch_decoder; latch_jal; latch_store_adr; \\\\\\n                     latch_load_adr; enter_int; leave_int;", "none; latch_decoder; latch_jal; latch_store_adr; latch_load_adr = 4; enter_int;").replace("except_ctl => leave_int, ", "")
assert t != s
check("except_ctl without leave_int", accepted(t), False)
""")

bug("C13-mepc-low-bits", "C13",
    "a CSR write of a value that is not a multiple of four to mepc",
    "mepc keeps bit 1 of what is written",
    [("datapath.py", """        with m.If((self.pub.adr == CSRFile.MTVEC) |
                  (self.pub.adr == CSRFile.MEPC)):
            m.d.comb += self.priv.dat_w[0:2].eq(0)""", """        with m.If(self.pub.adr == CSRFile.MTVEC):
            m.d.comb += self.priv.dat_w[0:2].eq(0)
        with m.Elif(self.pub.adr == CSRFile.MEPC):
            m.d.comb += self.priv.dat_w[0].eq(0)""")],
    """
from simcore import *
got = regs_after(li(1, 0x12345677) + [csrrw(0, MEPC, 1), csrrs(3, MEPC, 0), csrrw(0, MTVEC, 1), csrrs(4, MTVEC, 0)], [3, 4])
check("mepc, mtvec", got, [0x12345674, 0x12345674])
""")

bug("C20-store-refetch", "C20",
    "a store whose slave acknowledges",
    "a completed SB is followed by a second identical write",
    [("microcode.asm", """              mem_sel => byte, write_mem => 1, jmp_type => direct, target => sb_wait;
          STOP_MEMREQ_THEN_JUMP_TO_ZERO;""", """              mem_sel => byte, write_mem => 1, jmp_type => direct, target => sb_wait;
          jmp_type => direct, target => sb_again;"""),
     ("microcode.asm", """sh: a_src => zero, b_src => gp, latch_a => 1, latch_b => 1, alu_op => add;""",
      """sb_again: mem_req => 1, invert_test => 1, cond_test => mem_valid, \\
              mem_sel => byte, write_mem => 1, jmp_type => direct, target => sb_again;
          STOP_MEMREQ_THEN_JUMP_TO_ZERO;

sh: a_src => zero, b_src => gp, latch_a => 1, latch_b => 1, alu_op => add;""")],
    """
from simcore import *
r = run(at([addi(1, 0, 0x55), S(0, 1, 0, 0x443), NOP, NOP]), n=5)
check("transfers", [(k, a) for k, a, s, d in r.transfers], [("R", 0), ("R", 4), ("W", 0x440), ("R", 8), ("R", 12)])
""")
