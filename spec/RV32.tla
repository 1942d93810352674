------------------------------- MODULE RV32 -------------------------------
(* The instruction set Sentinel implements: RV32I + Zicsr, machine mode    *)
(* only.  Decoding, legality and the effect of one instruction, as pure    *)
(* functions of the architectural state.                                   *)
EXTENDS Word32, FiniteSets, Sequences

(* ---- fields of an instruction word w = <<hi, lo>> ---- *)
Opcode(w) == w[2] % 128
Rd(w)     == (w[2] \div 128) % 32
F3(w)     == (w[2] \div 4096) % 8
Rs1(w)    == (w[2] \div 32768) + (w[1] % 16) * 2
Rs2(w)    == (w[1] \div 16) % 32
F7(w)     == w[1] \div 512
F12(w)    == w[1] \div 16

Sext12(n) == IF n >= 2048 THEN <<65535, 61440 + n>> ELSE <<0, n>>
ImmI(w) == Sext12(F12(w))
ImmS(w) == Sext12(F7(w) * 32 + Rd(w))
ImmU(w) == <<w[1], (w[2] \div 4096) * 4096>>
ImmB(w) == LET v == (Rd(w) % 2) * 2048 + (F7(w) % 64) * 32 + (Rd(w) \div 2) * 2
           IN IF w[1] >= 32768 THEN <<65535, 61440 + v>> ELSE <<0, v>>
ImmJ(w) == LET lo == (w[2] \div 4096) * 4096 + ((w[1] \div 16) % 2) * 2048
                     + ((w[1] \div 32) % 1024) * 2
               hi == w[1] % 16
           IN IF w[1] >= 32768 THEN <<65520 + hi, lo>> ELSE <<hi, lo>>

OpLoad == 3   OpFence == 15  OpImm == 19  OpAuipc == 23  OpStore == 35
OpReg == 51   OpLui == 55    OpBranch == 99  OpJalr == 103  OpJal == 111
OpSystem == 115

WEcall  == <<0, 115>>
WEbreak == <<16, 115>>
WMret   == <<12320, 115>>          \* 0x30200073
WWfi    == <<4176, 115>>           \* 0x10500073

(* ---- CSR address space ---- *)
MSTATUS == 768   MIE == 772   MTVEC == 773   MSCRATCH == 832
MEPC == 833      MCAUSE == 834   MIP == 836

RwCsrs == {MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP}
(* implemented as constant zero: misa, mstatush, mtval, mcountinhibit,     *)
(* mhpmevent3-31, mcycle(h), minstret(h), mhpmcounter3-31(h), and the      *)
(* read-only mvendorid, marchid, mimpid, mhartid, mconfigptr               *)
ZeroCsr(a) == \/ a \in {769, 784, 835, 800}
              \/ a \in 803..831                       \* mhpmevent3..31
              \/ a \in {2816, 2818, 2944, 2946}       \* mcycle[h] minstret[h]
              \/ a \in 2819..2847 \/ a \in 2947..2975 \* mhpmcounter3..31[h]
              \/ a \in 3857..3861                     \* 0xF11..0xF15
CsrExists(a) == a \in RwCsrs \/ ZeroCsr(a)
CsrReadOnly(a) == a >= 3072                           \* address bits 11:10 = 11
(* does this CSR instruction write?  csrrs/csrrc with rs1/uimm = 0 do not  *)
CsrWrites(w) == F3(w) \in {1, 5} \/ Rs1(w) # 0
CsrLegal(w) == CsrExists(F12(w)) /\ ~(CsrReadOnly(F12(w)) /\ CsrWrites(w))

IsCsrOp(w) == Opcode(w) = OpSystem /\ F3(w) \in {1, 2, 3, 5, 6, 7}

Legal(w) ==
  LET op == Opcode(w)  f3 == F3(w)  f7 == F7(w) IN
  CASE op = OpLui -> TRUE
    [] op = OpAuipc -> TRUE
    [] op = OpJal -> TRUE
    [] op = OpJalr -> f3 = 0
    [] op = OpBranch -> f3 \notin {2, 3}
    [] op = OpLoad -> f3 \in {0, 1, 2, 4, 5}
    [] op = OpStore -> f3 \in {0, 1, 2}
    [] op = OpImm -> CASE f3 = 1 -> f7 = 0 [] f3 = 5 -> f7 \in {0, 32} [] OTHER -> TRUE
    [] op = OpReg -> f7 = 0 \/ (f7 = 32 /\ f3 \in {0, 5})
    [] op = OpFence -> f3 = 0
    [] op = OpSystem -> IF f3 = 0 THEN w \in {WEcall, WEbreak, WMret, WWfi}
                        ELSE IF f3 = 4 THEN FALSE ELSE CsrLegal(w)
    [] OTHER -> FALSE

(* ---- architectural state: pc, x (1..31 -> word), c (CSRs) ---- *)
Reg(x, r) == IF r = 0 THEN Zero ELSE x[r]
SetReg(x, r, v) == IF r = 0 THEN x ELSE [x EXCEPT ![r] = v]

MStatusVal(c) == <<0, 6144 + 128 * c.mpie + 8 * c.mie>>
CsrRead(c, a, irq) ==
  CASE a = MSTATUS -> MStatusVal(c)
    [] a = MIE -> <<0, 2048 * c.meie>>
    [] a = MTVEC -> c.mtvec
    [] a = MSCRATCH -> c.mscratch
    [] a = MEPC -> c.mepc
    [] a = MCAUSE -> c.mcause
    [] a = MIP -> <<0, 2048 * irq>>
    [] OTHER -> Zero
CsrWrite(c, a, v) ==
  CASE a = MSTATUS -> [c EXCEPT !.mie = Bit(v, 3), !.mpie = Bit(v, 7)]
    [] a = MIE -> [c EXCEPT !.meie = Bit(v, 11)]
    [] a = MTVEC -> [c EXCEPT !.mtvec = AlignDown4(v)]
    [] a = MSCRATCH -> [c EXCEPT !.mscratch = v]
    [] a = MEPC -> [c EXCEPT !.mepc = AlignDown4(v)]
    [] a = MCAUSE -> [c EXCEPT !.mcause = v]
    [] OTHER -> c

(* ---- traps ---- *)
InsnMisaligned == Small(0)   IllegalInsn == Small(2)   Breakpoint == Small(3)
LoadMisaligned == Small(4)   StoreMisaligned == Small(6)   EcallM == Small(11)
ExtInterrupt == <<32768, 11>>
EnterTrap(c, pc, cause) ==
  [c EXCEPT !.mepc = pc, !.mcause = cause, !.mpie = c.mie, !.mie = 0]
LeaveTrap(c) == [c EXCEPT !.mie = c.mpie, !.mpie = 1]

IntEnabled(c) == c.mie = 1 /\ c.meie = 1

(* ---- one instruction ----                                               *)
(* Result record:                                                          *)
(*   t    "ok" | "load" | "store" | "trap"                                 *)
(*   npc  next pc                 rd, val  register result (rd = 0: none)  *)
(*   c    CSR state afterwards    cause    (trap)                          *)
(*   adr  data address            dat      word driven on a store          *)
Res(t, npc, rd, val, c, cause, adr, dat) ==
  [t |-> t, npc |-> npc, rd |-> rd, val |-> val, c |-> c, cause |-> cause,
   adr |-> adr, dat |-> dat]
Trap(c, pc, cause) ==
  Res("trap", c.mtvec, 0, Zero, EnterTrap(c, pc, cause), cause, Zero, Zero)
Ok(npc, rd, val, c) == Res("ok", npc, rd, val, c, Zero, Zero, Zero)

AluOp(f3, alt, a, b) ==
  CASE f3 = 0 -> IF alt THEN Sub(a, b) ELSE Add(a, b)
    [] f3 = 1 -> Sll(a, b[2] % 32)
    [] f3 = 2 -> B2W(Lts(a, b))
    [] f3 = 3 -> B2W(Ltu(a, b))
    [] f3 = 4 -> WXor(a, b)
    [] f3 = 5 -> IF alt THEN Sra(a, b[2] % 32) ELSE Srl(a, b[2] % 32)
    [] f3 = 6 -> WOr(a, b)
    [] OTHER -> WAnd(a, b)

Taken(f3, a, b) ==
  CASE f3 = 0 -> a = b [] f3 = 1 -> a # b
    [] f3 = 4 -> Lts(a, b) [] f3 = 5 -> ~Lts(a, b)
    [] f3 = 6 -> Ltu(a, b) [] OTHER -> ~Ltu(a, b)

(* access size of loads/stores: 0 byte, 1 half, 2 word *)
Size(f3) == f3 % 4
Misaligned(f3, adr) == \/ Size(f3) = 1 /\ adr[2] % 2 = 1
                       \/ Size(f3) = 2 /\ adr[2] % 4 # 0
SelOf(f3, adr) == CASE Size(f3) = 0 -> P2(adr[2] % 4)
                    [] Size(f3) = 1 -> IF adr[2] % 4 = 0 THEN 3 ELSE 12
                    [] OTHER -> 15
LoadVal(f3, adr, d) ==
  LET off == adr[2] % 4 IN
  CASE f3 = 0 -> SextByte(ByteOf(d, off)) [] f3 = 4 -> Small(ByteOf(d, off))
    [] f3 = 1 -> SextHalf(HalfOf(d, off)) [] f3 = 5 -> Small(HalfOf(d, off))
    [] OTHER -> d
(* the byte lanes of the bus a store must drive, given the register value  *)
LanesOk(f3, adr, v, d) ==
  LET off == adr[2] % 4 IN
  CASE Size(f3) = 0 -> ByteOf(d, off) = v[2] % 256
    [] Size(f3) = 1 -> HalfOf(d, off) = v[2]
    [] OTHER -> d = v

ExecCsr(w, pc, x, c, irq) ==
  LET a == F12(w)
      f3 == F3(w)
      src == IF f3 >= 5 THEN Small(Rs1(w)) ELSE Reg(x, Rs1(w))
      old == CsrRead(c, a, irq)
      new == CASE f3 % 4 = 1 -> src
               [] f3 % 4 = 2 -> WOr(old, src)
               [] OTHER -> WAnd(old, WNot(src))
  IN Ok(Add(pc, Four), Rd(w), old, IF CsrWrites(w) THEN CsrWrite(c, a, new) ELSE c)

Exec(w, pc, x, c, irq) ==
  LET op == Opcode(w)  f3 == F3(w)
      a == Reg(x, Rs1(w))  b == Reg(x, Rs2(w))
      next == Add(pc, Four)
  IN
  IF ~Legal(w) THEN Trap(c, pc, IllegalInsn)
  ELSE
  CASE op = OpImm -> Ok(next, Rd(w), AluOp(f3, f3 = 5 /\ F7(w) = 32, a,
                                           IF f3 \in {1, 5} THEN Small(Rs2(w)) ELSE ImmI(w)), c)
    [] op = OpReg -> Ok(next, Rd(w), AluOp(f3, F7(w) = 32, a, b), c)
    [] op = OpLui -> Ok(next, Rd(w), ImmU(w), c)
    [] op = OpAuipc -> Ok(next, Rd(w), Add(pc, ImmU(w)), c)
    [] op = OpJal -> LET t == Add(pc, ImmJ(w)) IN
                     IF t[2] % 4 # 0 THEN Trap(c, pc, InsnMisaligned)
                     ELSE Ok(t, Rd(w), next, c)
    [] op = OpJalr -> LET s == Add(a, ImmI(w))
                          t == <<s[1], s[2] - (s[2] % 2)>> IN
                      IF t[2] % 4 # 0 THEN Trap(c, pc, InsnMisaligned)
                      ELSE Ok(t, Rd(w), next, c)
    [] op = OpBranch -> IF ~Taken(f3, a, b) THEN Ok(next, 0, Zero, c)
                        ELSE LET t == Add(pc, ImmB(w)) IN
                             IF t[2] % 4 # 0 THEN Trap(c, pc, InsnMisaligned)
                             ELSE Ok(t, 0, Zero, c)
    [] op = OpLoad -> LET adr == Add(a, ImmI(w)) IN
                      IF Misaligned(f3, adr) THEN Trap(c, pc, LoadMisaligned)
                      ELSE Res("load", next, Rd(w), Zero, c, Zero, adr, Zero)
    [] op = OpStore -> LET adr == Add(a, ImmS(w)) IN
                       IF Misaligned(f3, adr) THEN Trap(c, pc, StoreMisaligned)
                       ELSE Res("store", next, 0, Zero, c, Zero, adr, b)
    [] op = OpFence -> Ok(next, 0, Zero, c)
    [] OTHER -> \* SYSTEM
       CASE w = WEcall -> Trap(c, pc, EcallM)
         [] w = WEbreak -> Trap(c, pc, Breakpoint)
         [] w = WMret -> Ok(c.mepc, 0, Zero, LeaveTrap(c))
         [] w = WWfi -> Ok(next, 0, Zero, c)
         [] OTHER -> ExecCsr(w, pc, x, c, irq)
===========================================================================
