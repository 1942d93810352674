---------------------------- MODULE SentinelRvfi ----------------------------
(* The verification wrapper sentinel.formal.FormalTop: the same hart with a *)
(* RISC-V Formal Interface port.  One report per instruction, raised while  *)
(* the fetch of the following instruction is acknowledged.                  *)
(*                                                                          *)
(* Traces interleave the bus transfers of SentinelTrace with the reports:   *)
(*  [3, order, insnH, insnL, trap, intr, pcrH, pcrL, pcwH, pcwL,            *)
(*   rs1, rs1H, rs1L, rs2, rs2H, rs2L, rd, rdH, rdL, adrH, adrL,            *)
(*   rmask, wmask, rdataH, rdataL, wdataH, wdataL, halt, mode, ixl,         *)
(*   mscratch, mcause, mie, mstatus, mtvec, mepc, mip  (read, two halves)   *)
(*   mscratch, mcause, mie, mstatus, mtvec, mepc  (written, two halves),    *)
(*   1 if all masks of these are all ones, 1 if all other CSRs read as 0,   *)
(*   1 if the write mask of the read-as-zero CSR the instruction names is   *)
(*   all ones, what is written there, what is written to mip (two halves),  *)
(*   lowest and highest level of the interrupt line since the last report]  *)
EXTENDS SentinelTrace

VARIABLES
  cur,  \* the instruction that has not been reported yet
  ord,  \* its order number
  hnd   \* 1: it is the first one after a trap or interrupt

rvars == <<tvars, cur, ord, hnd>>

None == [v |-> 0]
NoMem == <<0, 0, Zero, Zero>>      \* rmask, wmask, address, data

RvfiInit == TraceInit /\ cur = None /\ ord = 0 /\ hnd = 0

Reject(clause, expect) == Bad(clause, expect) /\ UNCHANGED <<cur, ord, hnd>>
F(e, n) == <<e[n], e[n + 1]>>

(* Registers never written since a reset hold nothing one could predict.   *)
Differs(got, want) == want # Unknown /\ got # want
(* A register an instruction does not read may be reported as any register, *)
(* but then with that register's value.                                     *)
ReadsRs1(w) == Opcode(w) \in {OpImm, OpReg, OpBranch, OpJalr, OpLoad, OpStore} \/ (IsCsrOp(w) /\ F3(w) < 4)
ReadsRs2(w) == Opcode(w) \in {OpReg, OpBranch, OpStore}
(* CSR values are reported as they were before the instruction; those a     *)
(* trap or MRET changes by itself are not held to that.                     *)
CsrReports == cur.out = 0 /\ cur.w # WMret
(* What a CSR instruction writes is reported too (on the implemented bits). *)
WritesCsr == cur.out = 0 /\ IsCsrOp(cur.w) /\ (F3(cur.w) \in {1, 5} \/ Rs1(cur.w) # 0)
             /\ (F3(cur.w) >= 4 \/ Reg(cur.x, Rs1(cur.w)) # Unknown)
             /\ (F3(cur.w) % 4 = 1 \/ CsrRead(cur.c, F12(cur.w), 0) # Unknown)
             /\ F12(cur.w) \in {MSCRATCH, MCAUSE, MIE, MSTATUS, MTVEC, MEPC}
WdataAt == LET a == F12(cur.w) IN CASE a = MSCRATCH -> 45 [] a = MCAUSE -> 47 [] a = MIE -> 49
                                    [] a = MSTATUS -> 51 [] a = MTVEC -> 53 [] OTHER -> 55
NewRaw == LET src == IF F3(cur.w) >= 4 THEN <<0, Rs1(cur.w)>> ELSE Reg(cur.x, Rs1(cur.w))
              old == CsrRead(cur.c, F12(cur.w), 0)
          IN CASE F3(cur.w) % 4 = 1 -> src [] F3(cur.w) % 4 = 2 -> WOr(old, src) [] OTHER -> WAnd(old, WNot(src))
Implemented == LET a == F12(cur.w) IN CASE a = MIE -> <<0, 2048>> [] a = MSTATUS -> <<0, 136>>
                                        [] a \in {MTVEC, MEPC} -> <<65535, 65532>> [] OTHER -> <<65535, 65535>>
SameImplemented(p, q) == WAnd(p, Implemented) = WAnd(q, Implemented)
(* The same for registers that read as zero, which keep nothing of it.      *)
ZeroNamed == {3857, 3858, 3859, 3860, 3861, 769, 784, 835, 800, 803, 2816, 2818, 2819, 2944, 2946, 2947}
Puts == cur.out = 0 /\ IsCsrOp(cur.w) /\ (F3(cur.w) \in {1, 5} \/ Rs1(cur.w) # 0)
        /\ (F3(cur.w) >= 4 \/ Reg(cur.x, Rs1(cur.w)) # Unknown)
ZeroWrite == Puts /\ F12(cur.w) \in ZeroNamed
MipWrite == Puts /\ F12(cur.w) = MIP
ZeroRaw == IF F3(cur.w) % 4 = 3 THEN Zero
           ELSE IF F3(cur.w) >= 4 THEN <<0, Rs1(cur.w)>> ELSE Reg(cur.x, Rs1(cur.w))
NotMeip == <<65535, 63487>>
(* what a report must say, by field; the first wrong field is named         *)
Wrong(e) ==
  LET w == cur.w
      done == cur.out = 0
      rd == IF done THEN cur.rd ELSE 0
      m == cur.mem
  IN
  CASE e[2] # ord -> <<"rvfi.order", <<0, ord>>>>
    [] F(e, 3) # w -> <<"rvfi.insn", w>>
    [] e[5] # (IF done THEN 0 ELSE 1) -> <<"rvfi.trap", <<0, IF done THEN 0 ELSE 1>>>>
    [] e[6] # cur.hnd -> <<"rvfi.intr", <<0, cur.hnd>>>>
    [] F(e, 7) # cur.pc -> <<"rvfi.pc_rdata", cur.pc>>
    [] F(e, 9) # pc -> <<"rvfi.pc_wdata", pc>>
    [] done /\ ReadsRs1(w) /\ e[11] # Rs1(w) -> <<"rvfi.rs1_addr", <<0, Rs1(w)>>>>
    [] Differs(F(e, 12), Reg(cur.x, e[11])) -> <<"rvfi.rs1_rdata", Reg(cur.x, e[11])>>
    [] done /\ ReadsRs2(w) /\ e[14] # Rs2(w) -> <<"rvfi.rs2_addr", <<0, Rs2(w)>>>>
    [] Differs(F(e, 15), Reg(cur.x, e[14])) -> <<"rvfi.rs2_rdata", Reg(cur.x, e[14])>>
    [] e[17] # rd -> <<"rvfi.rd_addr", <<0, rd>>>>
    [] Differs(F(e, 18), Reg(x, rd)) -> <<"rvfi.rd_wdata", Reg(x, rd)>>
    [] e[22] # m[1] -> <<"rvfi.mem_rmask", <<0, m[1]>>>>
    [] e[23] # m[2] -> <<"rvfi.mem_wmask", <<0, m[2]>>>>
    [] m[1] + m[2] > 0 /\ F(e, 20) # m[3] -> <<"rvfi.mem_addr", m[3]>>
    [] m[1] > 0 /\ F(e, 24) # m[4] -> <<"rvfi.mem_rdata", m[4]>>
    [] m[2] > 0 /\ F(e, 26) # m[4] -> <<"rvfi.mem_wdata", m[4]>>
    [] e[28] # 0 -> <<"rvfi.halt", Zero>>
    [] e[29] # 3 -> <<"rvfi.mode", <<0, 3>>>>
    [] e[30] # 1 -> <<"rvfi.ixl", <<0, 1>>>>
    [] CsrReports /\ cur.c.mscratch # Unknown /\ F(e, 31) # cur.c.mscratch -> <<"rvfi.csr_mscratch", cur.c.mscratch>>
    [] CsrReports /\ cur.c.mcause # Unknown /\ F(e, 33) # cur.c.mcause -> <<"rvfi.csr_mcause", cur.c.mcause>>
    [] CsrReports /\ F(e, 35) # CsrRead(cur.c, MIE, 0) -> <<"rvfi.csr_mie", CsrRead(cur.c, MIE, 0)>>
    [] CsrReports /\ F(e, 37) # MStatusVal(cur.c) -> <<"rvfi.csr_mstatus", MStatusVal(cur.c)>>
    [] CsrReports /\ cur.c.mtvec # Unknown /\ F(e, 39) # cur.c.mtvec -> <<"rvfi.csr_mtvec", cur.c.mtvec>>
    [] CsrReports /\ cur.c.mepc # Unknown /\ F(e, 41) # cur.c.mepc -> <<"rvfi.csr_mepc", cur.c.mepc>>
    [] F(e, 43) \notin {<<0, 2048 * k>> : k \in e[64]..e[65]} -> <<"rvfi.csr_mip", <<0, 2048 * e[64]>>>>
    [] WritesCsr /\ ~SameImplemented(F(e, WdataAt), NewRaw) -> <<"rvfi.csr_wdata", NewRaw>>
    [] e[57] # 1 -> <<"rvfi.csr_masks", <<0, 1>>>>
    [] e[58] # 1 -> <<"rvfi.csr_zero", <<0, 1>>>>
    [] ZeroWrite /\ (e[59] # 1 \/ F(e, 60) # ZeroRaw) -> <<"rvfi.csr_zero_wdata", ZeroRaw>>
    [] MipWrite /\ WAnd(F(e, 62), NotMeip) # WAnd(ZeroRaw, NotMeip) -> <<"rvfi.csr_mip_wdata", ZeroRaw>>
    [] OTHER -> <<"", Zero>>

StepReport(e) ==
  CASE cur.v = 0 -> Reject("rvfi.spurious", Zero)
    [] ph[1] # "F" -> Reject("rvfi.early", Zero)
    [] Wrong(e)[1] # "" -> Reject(Wrong(e)[1], Wrong(e)[2])
    [] OTHER -> /\ cur' = None /\ ord' = ord + 1 /\ hnd' = IF cur.out = 0 THEN 0 ELSE 1
                /\ hist' = IF Explain THEN (IF l > From[seg] THEN Append(hist, <<"R", 6, pc>>) ELSE hist) ELSE hist
                /\ Advance /\ UNCHANGED <<pc, x, c, ph, tm>>

RvfiFetch(e) ==
  CASE ~(e[1] \in {0, 9} /\ EvAdr(e) = pc /\ e[4] = 15) -> StepFetch(e) /\ UNCHANGED <<cur, ord, hnd>>
    [] e[1] = 9 -> StepFetch(e) /\ UNCHANGED <<cur, ord, hnd>>
    [] cur.v = 1 -> Reject("rvfi.missing", cur.w)
    [] OTHER ->
       LET w == EvDat(e) IN
       \E d \in Decisions(e), m \in MipLevels(e) :
         LET r == Exec(w, pc, x, c, m) IN
         /\ Fetch(w, d, m)
         /\ cur' = [v |-> 1, w |-> w, pc |-> pc, x |-> x, c |-> c, hnd |-> hnd,
                    out |-> FetchOutcome(w, d, r), rd |-> r.rd, mem |-> NoMem]
         /\ UNCHANGED <<ord, hnd, tm>>
         /\ Log(FetchOutcome(w, d, r))
         /\ (Counting => Count(Class(w), FetchOutcome(w, d, r)))
         /\ Advance

RvfiData(e) ==
  /\ IF ph[1] = "L" THEN StepLoad(e) ELSE StepStore(e)
  /\ cur' = IF l' # 0 THEN [cur EXCEPT !.mem = IF ph[1] = "L" THEN <<e[4], 0, EvAdr(e), EvDat(e)>>
                                               ELSE <<0, e[4], EvAdr(e), EvDat(e)>>]
            ELSE cur
  /\ UNCHANGED <<ord, hnd>>

RvfiNext ==
  /\ l > 0
  /\ IF l > Len(Trace[seg])
     THEN PrintT(<<"OK", seg, l - 1>>) /\ Stop /\ UNCHANGED <<cur, ord, hnd>>
     ELSE LET e == Trace[seg][l] IN
          CASE e[1] = 2 -> StepReset /\ cur' = None /\ ord' = 0 /\ hnd' = 0
            [] e[1] = 8 -> Reject("silence", BusAdr)
            [] e[1] = 7 -> Reject("dropped", BusAdr)
            [] e[1] = 3 -> StepReport(e)
            [] ph[1] = "F" -> RvfiFetch(e)
            [] OTHER -> RvfiData(e)

RvfiSpec == RvfiInit /\ [][RvfiNext]_rvars
=============================================================================
