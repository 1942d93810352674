------------------------------- MODULE MCTraps -------------------------------
(* The trap machinery over histories of any length: pc and mepc are kept in *)
(* two short stretches of code, so that the reachable states are finite and *)
(* TLC visits every one of them, however long the history that leads there. *)
(* A ghost remembers what the last trap saved.                              *)
(*                                                                          *)
(* With IOEnv.TOUR set, every transition is also written out; the harness   *)
(* walks all of them on the real core (see harness/tour.py).                *)
EXTENDS Sentinel, IOUtils, Json, TLC

VARIABLES
  irq,   \* level of the interrupt line
  g      \* <<1, pc, mie>> of the last trap, until mepc or mstatus is written

tvars == <<pc, x, c, ph, irq, g>>

Tour == IOEnv.TOUR # ""
Main == <<0, 4096>>      \* a stretch of program
Vec  == <<0, 512>>       \* a stretch of handler
Home == {<<0, 4096>>, <<0, 4100>>, <<0, 512>>, <<0, 516>>}

Nop == <<0, 19>>
CW(f12, rs1, f3, rd) == <<f12 * 16 + rs1 \div 2, (rs1 % 2) * 32768 + f3 * 4096 + rd * 128 + 115>>
X5 == <<0, 128>>  X6 == <<0, 2048>>  X7 == Main  X8 == Vec
Alphabet ==
  [ nop |-> Nop, back |-> <<65503, 61551>>,  \* jal x0, -4
    ecall |-> WEcall, ebreak |-> WEbreak, mret |-> WMret, illegal |-> <<0, 0>>,
    ldmis |-> <<16, 8067>>,                                    \* lh x31, 1(x0)
    stmis |-> <<0, 8483>>,                                     \* sw x0, 2(x0)
    jalmis |-> <<32, 111>>,                                    \* jal x0, 2
    mieOn |-> CW(MSTATUS, 8, 6, 0), mieOff |-> CW(MSTATUS, 8, 7, 0),
    mpieOn |-> CW(MSTATUS, 5, 2, 0), mpieOff |-> CW(MSTATUS, 5, 3, 0),
    meieOn |-> CW(MIE, 6, 2, 0), meieOff |-> CW(MIE, 6, 3, 0),
    epcMain |-> CW(MEPC, 7, 1, 0), epcVec |-> CW(MEPC, 8, 1, 0),
    home |-> <<3, 32871>> ]                                     \* jalr x0, 0(x7)
Names == DOMAIN Alphabet
X0 == [i \in 1..31 |-> CASE i = 5 -> X5 [] i = 6 -> X6 [] i = 7 -> X7 [] i = 8 -> X8 [] OTHER -> <<0, i>>]
ASSUME /\ Legal(Alphabet.back) /\ Opcode(Alphabet.back) = OpJal /\ ImmJ(Alphabet.back) = <<65535, 65532>>
       /\ Opcode(Alphabet.home) = OpJalr /\ Rs1(Alphabet.home) = 7 /\ Rd(Alphabet.home) = 0 /\ ImmI(Alphabet.home) = Zero
       /\ Exec(Alphabet.ldmis, Main, X0, CsrInit(0, Vec, Zero, Main), 0).cause = LoadMisaligned
       /\ Exec(Alphabet.stmis, Main, X0, CsrInit(0, Vec, Zero, Main), 0).cause = StoreMisaligned
       /\ Exec(Alphabet.jalmis, Main, X0, CsrInit(0, Vec, Zero, Main), 0).cause = InsnMisaligned

Init == /\ pc = Main /\ x = X0 /\ ph = FetchPhase /\ irq = 0 /\ g = <<0, Zero, 0>>
        /\ c = [mie |-> 0, mpie |-> 0, meie |-> 0, mtvec |-> Vec, mscratch |-> Zero, mepc |-> Main, mcause |-> IllegalInsn]

Trapping(cc) == cc.mepc = pc /\ cc.mie = 0 /\ cc.mpie = c.mie
Ghost(w, took, r) ==
  CASE took -> <<1, pc, c.mie>>
    [] r.t = "trap" -> <<1, pc, c.mie>>
    [] IsCsrOp(w) /\ F12(w) \in {MEPC, MSTATUS} -> <<0, Zero, 0>>
    [] w = WMret -> <<0, Zero, 0>>
    [] OTHER -> g

Edge(name) == Tour => Serialize(ToJson([s |-> <<pc, c, irq>>, a |-> name, t |-> <<pc', c', irq'>>, w |-> Alphabet[name],
                                        p |-> IF Interrupts(irq) THEN 1 ELSE 0]) \o "\n",
                       IOEnv.TOUR, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Step(name) ==
  LET w == Alphabet[name]  r == Exec(w, pc, x, c, irq) IN
  /\ Fetch(w, irq, irq)
  /\ pc' \in Home
  /\ irq' = irq
  /\ g' = Ghost(w, Interrupts(irq), r)
  /\ Edge(name)
Flip == irq' = 1 - irq /\ UNCHANGED <<pc, x, c, ph, g>>
Next == (\E name \in Names : Step(name)) \/ Flip
Spec == Init /\ [][Next]_tvars
NoGhost == IF Tour THEN <<pc, c, irq>> ELSE tvars

(* ---- C15 ---- *)
Types == /\ x = X0 /\ ph = FetchPhase /\ pc \in Home /\ c.mepc \in Home /\ c.mtvec = Vec /\ c.mscratch = Zero
         /\ c.mcause \in {InsnMisaligned, IllegalInsn, Breakpoint, LoadMisaligned, StoreMisaligned, EcallM, ExtInterrupt}
(* as long as nothing overwrote it, MRET undoes the trap                    *)
Saved == g[1] = 1 => c.mepc = g[2] /\ c.mpie = g[3] /\ (g[1] = 1 => c.mie = 0)
Undoes == [][(g[1] = 1 /\ g'[1] = 0 /\ c'.mpie = 1 /\ c.mepc = c'.mepc /\ pc' = g[2] /\ pc # g[2] /\ pc' # Add(pc, Four)
              /\ c'.mcause = c.mcause /\ c.mie = 0 /\ c'.mie = 1) => g[3] = 1]_tvars
(* interrupts never nest unless software turns them on again                *)
NoNest == [][(c'.mcause = ExtInterrupt /\ c.mcause # ExtInterrupt) => (c.mie = 1 /\ c.meie = 1 /\ irq = 1)]_tvars
(* a trap always lands in the vector with interrupts off                    *)
Lands == [][(g'[1] = 1 /\ g'[2] = pc /\ g' # g) => (pc' = Vec /\ c'.mie = 0 /\ c'.mpie = c.mie)]_tvars
(* ---- C16: an enabled pending interrupt is always the next thing ---- *)
Prompt == [][(Interrupts(irq) /\ irq' = irq) => (c'.mcause = ExtInterrupt /\ pc' = Vec /\ c'.mepc = pc)]_tvars
==============================================================================
