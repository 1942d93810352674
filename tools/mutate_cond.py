#!/usr/bin/env python3
"""mutate_cond.py [-j N] [-s SEED] [-n MAX] OUT: spoil one signal of the core
under a rare condition (two random facts about the instruction, the one before,
the bus, the interrupt line, the PC or the operands must coincide) and see
whether the specification rejects the runs.  As mutate_code.py otherwise."""
import argparse
import os
import random
import shutil
import sys
import tempfile
from concurrent.futures import ProcessPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V / "tools"), str(V / "harness")]
import mutate_code  # noqa: E402

PRE = """
        t_p0 = Signal(32, init=0x13); t_p1 = Signal(32, init=0x13)
        t_wait = Signal(16); t_lastw = Signal(16); t_irq = Signal(); t_exc = Signal(); t_n = Signal(8); t_hit = Signal()
        with m.If(self.decode.do_decode):
            m.d.sync += [t_p0.eq(self.decode.insn), t_p1.eq(t_p0), t_irq.eq(self.irq), t_n.eq(t_n + 1)]
        with m.If(self.bus.cyc & ~self.bus.ack):
            m.d.sync += t_wait.eq(t_wait + 1)
        with m.Elif(self.bus.cyc):
            m.d.sync += [t_wait.eq(0), t_lastw.eq(t_wait)]
        with m.If(self.control.mem.insn_fetch & self.bus.ack):
            m.d.sync += t_exc.eq(0)
        with m.If(self.exception_router.out.exception):
            m.d.sync += t_exc.eq(1)
"""


def atom(r):
    op = lambda: r.choice([0x13, 0x33, 0x03, 0x23, 0x63, 0x67, 0x6f, 0x37, 0x17, 0x73, 0x0f])
    k = r.randrange(14)
    return [lambda: f"(t_p0[0:7] == {op()})",
            lambda: f"(t_p0[0:7] == {op()}) & (t_p0[12:15] == {r.randrange(8)})",
            lambda: f"(t_p1[0:7] == {op()})",
            lambda: f"(t_p1[0:7] == {op()}) & (t_p1[12:15] == {r.randrange(8)})",
            lambda: f"(t_p0[7:12] == {r.choice(['t_p1[7:12]', 't_p0[15:20]', 't_p1[15:20]', str(r.randrange(32))])})",
            lambda: f"(t_p0[15:20] == {r.choice(['t_p1[7:12]', 't_p0[20:25]', str(r.randrange(32))])})",
            lambda: f"(t_p0[20:25] == {r.choice(['t_p1[7:12]', str(r.randrange(32))])})",
            lambda: r.choice(["self.irq", "~self.irq", "t_irq", "(t_irq & ~self.irq)", "(~t_irq & self.irq)"]),
            lambda: r.choice(["self.datapath.csr.mstatus_r.mie", "self.datapath.csr.mie_r.meie", "~self.datapath.csr.mstatus_r.mpie"]),
            lambda: f"(t_{r.choice(['lastw', 'wait'])} {r.choice(['==', '>='])} {r.choice([0, 1, 2, 3, 5, 8, 16, 64])})",
            lambda: f"(self.datapath.pc.dat_r[{(b := r.randrange(29))}:{b + r.randrange(1, 3)}] == {r.randrange(4)})",
            lambda: r.choice(["self.alu.o[31]", "(self.alu.o == 0)", "self.alu.o[0:8].all()", "self.a_src.data[31]", "self.b_src.data[31]",
                              "(self.a_src.data == self.b_src.data)", "self.bus.dat_r[31]", "self.bus.dat_r[7]"]),
            lambda: r.choice(["t_exc", "~t_exc", "self.exception_router.out.exception"]),
            lambda: f"(t_n[0:{(b := r.randrange(2, 6))}] == {r.randrange(1 << b)})"][k]()


EFFECTS = [
    ("self.alu.a.eq(self.a_src.data),", "self.alu.a.eq(self.a_src.data ^ (t_hit << {b})),"),
    ("self.alu.b.eq(self.b_src.data),", "self.alu.b.eq(self.b_src.data ^ (t_hit << {b})),"),
    ("self.a_src.gp.eq(self.datapath.gp.dat_r),", "self.a_src.gp.eq(self.datapath.gp.dat_r ^ (t_hit << {b})),"),
    ("self.b_src.gp.eq(self.datapath.gp.dat_r),", "self.b_src.gp.eq(self.datapath.gp.dat_r ^ (t_hit << {b})),"),
    ("self.b_src.imm.eq(self.decode.imm),", "self.b_src.imm.eq(self.decode.imm ^ (t_hit << {b})),"),
    ("self.b_src.dat_r.eq(read_data),", "self.b_src.dat_r.eq(read_data ^ (t_hit << {b})),"),
    ("self.b_src.csr.eq(self.datapath.csr.dat_r),", "self.b_src.csr.eq(self.datapath.csr.dat_r ^ (t_hit << {b})),"),
    ("self.datapath.gp.dat_w.eq(self.alu.o),", "self.datapath.gp.dat_w.eq(self.alu.o ^ (t_hit << {b})),"),
    ("self.datapath.pc.dat_w.eq(self.alu.o[2:]),", "self.datapath.pc.dat_w.eq(self.alu.o[2:] ^ (t_hit << {p})),"),
    ("self.datapath.csr.dat_w.eq(self.alu.o),", "self.datapath.csr.dat_w.eq(self.alu.o ^ (t_hit << {b})),"),
    ("self.wdata_align.data.eq(self.alu.o),", "self.wdata_align.data.eq(self.alu.o ^ (t_hit << {b})),"),
    ("self.bus.adr.eq(self.addr_align.wb_adr),", "self.bus.adr.eq(self.addr_align.wb_adr ^ (t_hit << {p})),"),
    ("self.b_src.mem_extend.eq(self.control.mem.extend),", "self.b_src.mem_extend.eq(self.control.mem.extend ^ t_hit),"),
    ("self.b_src.pc.eq(self.datapath.pc.dat_r),", "self.b_src.pc.eq(self.datapath.pc.dat_r ^ (t_hit << {p})),"),
    ("self.datapath.csr.mip_w.meip.eq(irq)", "self.datapath.csr.mip_w.meip.eq(irq ^ t_hit)"),
    ("self.exception_router.src.alu_lo.eq(self.alu.o[0:2]),", "self.exception_router.src.alu_lo.eq(self.alu.o[0:2] ^ (t_hit << {l})),"),
    ("self.datapath.gp.adr_w.eq(reg_w_adr),", "self.datapath.gp.adr_w.eq(reg_w_adr ^ (t_hit << {r})),"),
    ("self.datapath.gp.adr_r.eq(reg_r_adr),", "self.datapath.gp.adr_r.eq(reg_r_adr ^ (t_hit << {r})),"),
    ("self.b_src.csr_imm.eq(self.decode.src_a),", "self.b_src.csr_imm.eq(self.decode.src_a ^ (t_hit << {r})),"),
    ("with m.If(self.control.mem.latch_adr):", "with m.If(self.control.mem.latch_adr & ~t_hit):"),
    ("self.bus.we.eq(self.control.mem.write),", "self.bus.we.eq(self.control.mem.write ^ t_hit),"),
    ("self.bus.dat_w.eq(write_data),", "self.bus.dat_w.eq(write_data ^ (t_hit << {b})),"),
    ("self.bus.sel.eq(self.addr_align.wb_sel),", "self.bus.sel.eq(self.addr_align.wb_sel ^ (t_hit << {l})),"),
    ("self.control.mem.valid.eq(mem_ack),", "self.control.mem.valid.eq(mem_ack ^ t_hit),"),
    ("self.decode.insn.eq(read_data),", "self.decode.insn.eq(read_data ^ (t_hit << {b})),"),
    ("self.exception_router.src.csr.mip.eq(self.datapath.csr.mip_r),", "self.exception_router.src.csr.mip.eq(self.datapath.csr.mip_r.as_value() ^ (t_hit << 11)),"),
    ("self.exception_router.src.csr.mstatus.eq(\n                self.datapath.csr.mstatus_r),",
     "self.exception_router.src.csr.mstatus.eq(\n                self.datapath.csr.mstatus_r.as_value() ^ (t_hit << 3)),"),
    ("self.control.csr.route.target[0:4])", "self.control.csr.route.target[0:4] ^ (t_hit << {l}))"),
    ("self.datapath.csr.adr.eq(self.decode.csr_encoding)", "self.datapath.csr.adr.eq(self.decode.csr_encoding ^ (t_hit << {l}))"),
    ("with m.If(self.control.mem.latch_data):", "with m.If(self.control.mem.latch_data & ~t_hit):"),
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-n", type=int, default=60)
    ap.add_argument("--patch", type=int, help="print the changed top.py of mutant N and stop")
    ap.add_argument("out", nargs="?")
    a = ap.parse_args()
    src = (mutate_code.SRC / "top.py").read_text()
    cut = src.index("        # Bus conns\n")
    jobs = []
    for k in range(a.n):
        r = random.Random(f"cond{a.s}/{k}")
        old, new = r.choice(EFFECTS)
        new = new.format(b=r.randrange(32), p=r.randrange(30), l=r.randrange(2), r=r.randrange(5))
        t1, t2 = atom(r), atom(r)
        text = src[:cut] + PRE.lstrip("\n") + f"        m.d.comb += t_hit.eq(({t1}) & ({t2}))\n" + src[cut:]
        assert text.count(old) == 1, (old, text.count(old))
        if old.startswith("with m.If"):     # comes before the signals are made
            text = src[:src.index("        # The lone sync")] + PRE + f"        m.d.comb += t_hit.eq(({t1}) & ({t2}))\n" + src[src.index("        # The lone sync"):]
        text = text.replace(old, new)
        if k == a.patch:
            sys.stdout.write(text)
            return
        jobs.append(("top.py", k, f"{new} if {t1} and {t2}", 0, len(src), text))
    d = Path(tempfile.mkdtemp(prefix="mutcode-"))
    base, err = mutate_code.nets("/repo", d)
    shutil.rmtree(d)
    with open(a.out, "w") as o, ProcessPoolExecutor(a.j) as ex:
        for r in ex.map(mutate_code.judge, [j + (base, None) for j in jobs]):
            print(r, file=o, flush=True)


if __name__ == "__main__":
    main()
