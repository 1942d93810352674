------------------------------- MODULE MCResume -------------------------------
(* C16's second half: a program that is interrupted and resumed by MRET     *)
(* behaves as if the interrupt had come between two instructions.           *)
(*                                                                          *)
(* A fixed program runs while the interrupt line moves at will; the handler *)
(* works only on registers of its own and returns with MRET.  A second hart *)
(* without interrupts is stepped once per completed instruction of the      *)
(* program: the two must agree whenever the first is outside the handler.   *)
EXTENDS Sentinel, TLC

VARIABLES irq, twin   \* twin: [pc, x, c] of the hart that is never interrupted
mvars == <<pc, x, c, ph, irq, twin>>

At == <<0, 4096>>   Vec == <<0, 512>>
R(f7, rs2, rs1, f3, rd, op) == << f7 * 512 + rs2 * 16 + rs1 \div 2, (rs1 % 2) * 32768 + f3 * 4096 + rd * 128 + op >>
I(imm, rs1, f3, rd, op) == R(imm \div 32, imm % 32, rs1, f3, rd, op)
(* a loop with every kind of instruction in it                              *)
Program == << I(1, 1, 0, 1, 19),            \* addi x1, x1, 1
              R(0, 1, 1, 1, 2, 51),         \* sll  x2, x1, x1
              R(0, 2, 0, 2, 4, 35),         \* sw   x2, 4(x0)
              I(4, 0, 4, 3, 3),             \* lbu  x3, 4(x0)
              I(832, 3, 2, 4, 115),         \* csrrs x4, mscratch, x3
              I(3, 1, 7, 1, 19),            \* andi x1, x1, 3
              R(0, 1, 0, 0, 8, 99),         \* beq  x0, x1, +8
              <<64, 751>>,                  \* jal  x5, +4
              <<4176, 115>>,                \* wfi
              <<0, 15>>,                    \* fence
              I(4096 - 40, 6, 0, 0, 103) >> \* jalr x0, -40(x6)
Handler == << I(832, 0, 2, 10, 115),        \* csrr x10, mscratch
              I(1, 11, 0, 11, 19),          \* addi x11, x11, 1
              I(3, 11, 7, 11, 19),          \* andi x11, x11, 3
              WMret >>
Index(a) == (a[2] - At[2]) \div 4 + 1
InHandler(a) == a[1] = 0 /\ a[2] >= Vec[2] /\ a[2] < Vec[2] + 4 * Len(Handler)
InProgram(a) == a[1] = 0 /\ a[2] >= At[2] /\ a[2] < At[2] + 4 * Len(Program)
WordAt(a) == IF InHandler(a) THEN Handler[((a[2] - Vec[2]) \div 4) + 1] ELSE Program[Index(a)]
Data == <<33153, 2>>

X0 == [i \in 1..31 |-> IF i = 6 THEN Add(At, <<0, 40>>) ELSE Zero]
C0 == [mie |-> 1, mpie |-> 0, meie |-> 1, mtvec |-> Vec, mscratch |-> Zero, mepc |-> Zero, mcause |-> Zero]
Init == /\ pc = At /\ x = X0 /\ c = C0 /\ ph = FetchPhase /\ irq \in {0, 1}
        /\ twin = [pc |-> At, x |-> X0, scr |-> Zero]

Mine(xx) == [i \in {1, 2, 3, 4, 5, 6} |-> xx[i]]
(* one completed instruction of the program on the twin                     *)
TwinStep == LET w == WordAt(twin.pc)
                r == Exec(w, twin.pc, twin.x, [C0 EXCEPT !.mscratch = twin.scr], 0)
                v == IF r.t = "load" THEN LoadVal(F3(w), r.adr, Data) ELSE r.val
            IN [pc |-> r.npc, x |-> SetReg(twin.x, r.rd, v), scr |-> r.c.mscratch]
DoFetch == /\ Fetch(WordAt(pc), irq, irq)
           /\ twin' = IF InProgram(pc) /\ ~Interrupts(irq) /\ ph' = FetchPhase THEN TwinStep ELSE twin
DoData == /\ \/ Load(Data) \/ Store
          /\ twin' = TwinStep
Next == /\ DoFetch \/ DoData
        /\ irq' \in {0, 1}
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

Outside == ph = FetchPhase /\ InProgram(pc)
Agree == Outside => /\ pc = twin.pc /\ Mine(x) = Mine(twin.x) /\ c.mscratch = twin.scr
                    /\ c.mie = 1 /\ c.meie = 1 /\ c.mtvec = Vec
Stays == InProgram(pc) \/ InHandler(pc)
InService == InHandler(pc) => c.mie = 0 /\ InProgram(c.mepc) /\ c.mepc = twin.pc
(* and the program goes on for ever                                         *)
Live == <>[](irq = 0) => []<>(pc = At)
=============================================================================
