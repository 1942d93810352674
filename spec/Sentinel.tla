------------------------------ MODULE Sentinel ------------------------------
(* The Sentinel CPU as its users see it: an RV32I_Zicsr machine-mode hart   *)
(* whose only connections to the world are a Wishbone Classic master port,  *)
(* one level-sensitive interrupt line and a synchronous reset.              *)
(*                                                                          *)
(* One action per bus transfer: the hart either fetches (phase "F"), or is  *)
(* in the middle of a load ("L") or store ("S") and owes exactly that       *)
(* transfer.  Everything an instruction does becomes visible atomically at  *)
(* the transfer that ends it.                                               *)
EXTENDS RV32

VARIABLES
  pc,   \* address of the next instruction fetch
  x,    \* integer registers 1..31
  c,    \* CSRs: [mie, mpie, meie, mtvec, mscratch, mepc, mcause]
  ph    \* <<"F">> or <<"L", funct3, address, rd>> or <<"S", funct3, address, data>>

vars == <<pc, x, c, ph>>

FetchPhase == <<"F", 0, Zero, Zero>>
CsrInit(p, tvec, scr, epc) ==
  [mie |-> 0, mpie |-> p, meie |-> 0, mtvec |-> tvec, mscratch |-> scr,
   mepc |-> epc, mcause |-> Zero]

(* Reset: execution restarts at 0 with interrupts off and mcause = 0; the   *)
(* memory-backed registers hold anything (whatever was there, or what the     *)
(* instruction being aborted was writing).  So does mstatus.MPIE: an MRET   *)
(* caught by the reset can still set it.                                    *)
ResetTo(xs, p, tvec, scr, epc) ==
  /\ pc' = Zero
  /\ x' = xs
  /\ c' = CsrInit(p, tvec, scr, epc)
  /\ ph' = FetchPhase

(* What a transfer does to the hart h = [pc, x, c, ph].                      *)
(* Fetch returned w.  irqd: level of the interrupt line when the hart       *)
(* decides; irqm: level when mip is read.  A pending, enabled interrupt     *)
(* pre-empts the fetched word entirely.                                     *)
Wanted(h, irqd) == IntEnabled(h.c) /\ irqd = 1
AfterExec(h, r, f3) ==
  CASE r.t = "load"  -> [h EXCEPT !.ph = <<"L", f3, r.adr, <<0, r.rd>>>>, !.pc = r.npc]
    [] r.t = "store" -> [h EXCEPT !.ph = <<"S", f3, r.adr, r.dat>>, !.pc = r.npc]
    [] OTHER         -> [h EXCEPT !.pc = r.npc, !.x = SetReg(h.x, r.rd, r.val), !.c = r.c]
AfterFetch(h, w, irqd, irqm) ==
  IF Wanted(h, irqd) THEN [h EXCEPT !.c = EnterTrap(h.c, h.pc, ExtInterrupt), !.pc = h.c.mtvec]
  ELSE AfterExec(h, Exec(w, h.pc, h.x, h.c, irqm), F3(w))
AfterLoad(h, d) == [h EXCEPT !.x = SetReg(h.x, h.ph[4][2], LoadVal(h.ph[2], h.ph[3], d)), !.ph = FetchPhase]
AfterStore(h) == [h EXCEPT !.ph = FetchPhase]

Hart == [pc |-> pc, x |-> x, c |-> c, ph |-> ph]
Become(h) == pc' = h.pc /\ x' = h.x /\ c' = h.c /\ ph' = h.ph
Interrupts(irqd) == Wanted(Hart, irqd)
Fetch(w, irqd, irqm) == ph[1] = "F" /\ Become(AfterFetch(Hart, w, irqd, irqm))
Load(d) == ph[1] = "L" /\ Become(AfterLoad(Hart, d))
Store == ph[1] = "S" /\ Become(AfterStore(Hart))

(* What the bus must carry in each phase. *)
BusAdr == IF ph[1] = "F" THEN pc ELSE AlignDown4(ph[3])
BusSel == IF ph[1] = "F" THEN 15 ELSE SelOf(ph[2], ph[3])
BusWe  == IF ph[1] = "S" THEN 1 ELSE 0

(* ---- timing ----                                                         *)
(* The documented clock counts (doc/development/internals.md), from one     *)
(* fetch to the next when every transfer has the minimal single wait state, *)
(* so that a fetch itself accounts for two clocks.  Classes the document    *)
(* does not list (AUIPC, FENCE, WFI, LUI) are held to the ALU/CSR figures.  *)
Clocks(w, r, xs) ==
  LET op == Opcode(w)  f3 == F3(w)
      amt == IF op = OpReg THEN Reg(xs, Rs2(w))[2] % 32 ELSE Rs2(w)
  IN
  CASE r.t = "trap" -> 13
    [] op \in {OpImm, OpReg} /\ f3 \in {1, 5} ->
         IF amt > 0 THEN 7 + 2 * amt ELSE IF op = OpImm THEN 9 ELSE 10
    [] op \in {OpImm, OpReg, OpLui} -> 4
    [] op = OpBranch -> IF Taken(f3, Reg(xs, Rs1(w)), Reg(xs, Rs2(w))) THEN 8 ELSE 7
    [] op \in {OpJal, OpJalr} -> 7
    [] op = OpLoad -> 9
    [] op = OpStore -> 10
    [] w = WMret -> 8
    [] IsCsrOp(w) -> 10
    [] OTHER -> 8
MaxGap(w, r, xs) == Clocks(w, r, xs) - 2
MaxGapTrap(w) == 11
MaxGapAfterData(gap, kind) == (IF kind = "L" THEN 9 ELSE 10) - 4 - gap
=============================================================================
