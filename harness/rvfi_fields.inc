                const unsigned masks = ONES(mscratch) && ONES(mcause) && ONES(mip) && ONES(mie) && ONES(mstatus) && ONES(mtvec) && ONES(mepc);
                const unsigned zeros = ZERO(misa) && ZERO(mvendorid) && ZERO(marchid) && ZERO(mimpid) && ZERO(mhartid) && ZERO(mconfigptr)
                    && ZERO(mstatush) && ZERO(mcountinhibit) && ZERO(mtval) && ZERO(mhpmevent3) && ZERO(mcycle) && ZERO(minstret) && ZERO(mhpmcounter3);
                const unsigned ca = (unsigned)(rd(top.p_rvfi____insn) >> 20) & 0xfff;
                uint64_t zw = 0, zm = 0xffffffffu;
                switch (ca) { // the CSR the instruction names, if it is one of those that read as zero
#define Z(a, n) case a: zw = rd(top.p_rvfi____csr____##n##____wdata); zm = rd(top.p_rvfi____csr____##n##____wmask); break;
#define ZH(a, n) case a: zw = rd(top.p_rvfi____csr____##n##____wdata) >> 32; zm = rd(top.p_rvfi____csr____##n##____wmask) >> 32; break;
                    Z(0xf11, mvendorid) Z(0xf12, marchid) Z(0xf13, mimpid) Z(0xf14, mhartid) Z(0xf15, mconfigptr)
                    Z(0x301, misa) Z(0x310, mstatush) Z(0x343, mtval) Z(0x320, mcountinhibit) Z(0x323, mhpmevent3)
                    Z(0xb00, mcycle) Z(0xb02, minstret) Z(0xb03, mhpmcounter3)
                    ZH(0xb80, mcycle) ZH(0xb82, minstret) ZH(0xb83, mhpmcounter3)
                }
                char b[900];
                snprintf(b, sizeof b, "[3,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%u,%d,%d]",
                         (unsigned)(rd(top.p_rvfi____order) & 0x3fffffff), H(insn), B(trap), B(intr), H(pc__rdata), H(pc__wdata),
                         B(rs1__addr), H(rs1__rdata), B(rs2__addr), H(rs2__rdata), B(rd__addr), H(rd__wdata),
                         H(mem__addr), B(mem__rmask), B(mem__wmask), H(mem__rdata), H(mem__wdata),
                         B(halt), B(mode), B(ixl), C(mscratch), C(mcause), C(mie), C(mstatus), C(mtvec), C(mepc),
                         C(mip), W(mscratch), W(mcause), W(mie), W(mstatus), W(mtvec), W(mepc), masks, zeros,
                         (unsigned)((zm & 0xffffffffu) == 0xffffffffu), (unsigned)(zw >> 16) & 0xffff, (unsigned)zw & 0xffff, W(mip), std::min(rmin, (int)irq), std::max(rmax, (int)irq));
                emit_raw(b);
                rmin = 1; rmax = 0;
