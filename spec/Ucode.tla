------------------------------- MODULE Ucode -------------------------------
(* The microcode machine inside Sentinel, one action per clock, as          *)
(* sentinel.ucodefields, the internals chapter and the comments of          *)
(* microcode.asm document it: what each microcode field does to the ALU,    *)
(* the register and CSR files, the program counter, the exception router,   *)
(* the sequencer and the bus.  The microprogram itself is a parameter, so   *)
(* the same module says what any microprogram does, and (MCUcode) whether   *)
(* the one in the tree makes this machine the hart of module Sentinel.      *)
(*                                                                          *)
(* Whatever the documentation leaves open is the value U, which spreads     *)
(* through everything computed from it; a decision that depends on U may go *)
(* either way.                                                              *)
EXTENDS RV32

U == <<-1, -1>>
Known(v) == v # U

(* ---- a microinstruction: a tuple, in this order ---- *)
FTarget == 1  FJmp == 2  FCond == 3  FInv == 4  FPc == 5  FLa == 6  FLb == 7
FAsrc == 8  FBsrc == 9  FOp == 10  FImod == 11  FOmod == 12  FRr == 13  FRw == 14
FRrs == 15  FRws == 16  FCsrOp == 17  FCsrSel == 18  FReq == 19  FMsel == 20
FMext == 21  FLadr == 22  FLdat == 23  FWe == 24  FIf == 25  FExc == 26

Idle == <<0, 0, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>

JCont == 0  JMap == 1  JDirect == 2  JZero == 3
TExc == 0   TZero == 1 TValid == 2   TTrue == 3
PcHold == 0 PcInc == 1 PcLoad == 2
AGp == 0  AImm == 1  AAlu == 2  AZero == 3  AFour == 4  ANeg == 5  A31 == 6
BGp == 0  BPc == 1  BImm == 2  BOne == 3  BDat == 4  BCsrImm == 5  BCsr == 6  BCause == 7
CsrNone == 0  CsrRd == 1  CsrWr == 2
MAuto == 0  MByte == 1  MHalf == 2  MWord == 3
EDec == 1  EJal == 2  EStore == 3  ELoad == 4  EEnter == 5  ELeave == 6

(* ---- the state of the machine ----                                       *)
(*  at     address of the microinstruction being executed                   *)
(*  guard  1 in the clock after a reset                                     *)
(*  a b o  ALU inputs and output                                            *)
(*  gp     the register file's read port       gpa  the register on it, -1  *)
(*  csr    what a CSR read of the last clock returned                       *)
(*  x      registers, x[1] is x0               bram  memory-backed CSRs      *)
(*  mie mpie meie   0, 1 or 2 (unknown)                                     *)
(*  pc     the program counter, a byte address                              *)
(*  insn   instruction decoded last            age  clocks since, up to 3   *)
(*  cause  the mcause latch                                                 *)
(*  adr    data address    wdat wsel  write data, and the lanes that hold it *)
PowerUp == [at |-> 0, guard |-> 1, a |-> U, b |-> U, o |-> Zero, gp |-> U, gpa |-> -1,
            csr |-> U, x |-> [i \in 1..32 |-> U], bram |-> [i \in {5, 8, 9, 10} |-> U],
            mie |-> 0, mpie |-> 0, meie |-> 0, pc |-> U, insn |-> U, age |-> 3,
            cause |-> U, adr |-> U, wdat |-> U, wsel |-> 0]
(* a reset leaves the memories, and the word the microcode ROM last read    *)
AfterReset(u) == [PowerUp EXCEPT !.at = u.at, !.x = u.x, !.bram = u.bram]

(* ---- what the last decoded instruction supplies ---- *)
Has(u) == Known(u.insn)
HasImm(w) == Opcode(w) \in {OpImm, OpJalr, OpLoad, OpLui, OpAuipc, OpJal, OpBranch, OpStore}
ImmOf(w) == LET op == Opcode(w) IN
  CASE op \in {OpImm, OpJalr, OpLoad} -> ImmI(w)
    [] op \in {OpLui, OpAuipc} -> ImmU(w)
    [] op = OpJal -> ImmJ(w)
    [] op = OpBranch -> ImmB(w)
    [] OTHER -> ImmS(w)
Imm(u) == IF Has(u) /\ HasImm(u.insn) THEN ImmOf(u.insn) ELSE U
(* the compressed CSR address: funct12 bits 2:0 and 6                       *)
CsrEnc(w) == (F12(w) % 8) + 8 * ((F12(w) \div 64) % 2)

(* the mapping PROM (internals.md, Mapping Details), legal instructions     *)
MapOf(w) == LET op == Opcode(w)  f3 == F3(w)  alt == IF F7(w) = 32 THEN 8 ELSE 0 IN
  CASE op = OpLoad -> 8 + f3
    [] op = OpFence -> 48
    [] op = OpImm -> 64 + f3 + (IF f3 = 5 THEN alt ELSE 0)
    [] op = OpAuipc -> 80
    [] op = OpStore -> 128 + f3
    [] op = OpBranch -> 136 + f3
    [] op = OpJalr -> 152
    [] op = OpJal -> 176
    [] op = OpReg -> 192 + f3 + alt
    [] op = OpLui -> 208
    [] w = WMret -> 248
    [] w = WWfi -> 48
    [] OTHER -> -1
CsrMapOf(w) == LET f3 == F3(w)  none == Rs1(w) = 0  quiet == Rd(w) = 0 IN
  CASE ZeroCsr(F12(w)) -> 37
    [] f3 = 1 -> IF quiet THEN 38 ELSE 39
    [] f3 = 5 -> IF quiet THEN 43 ELSE 44
    [] none -> 40
    [] f3 = 2 -> 41
    [] f3 = 3 -> 42
    [] f3 = 6 -> 45
    [] OTHER -> 46
(* -1: the documentation does not say *)
MapTarget(u) ==
  IF ~Has(u) THEN -1
  ELSE IF IsCsrOp(u.insn)
  THEN CASE u.age = 1 -> 36 [] u.age = 2 /\ Legal(u.insn) -> CsrMapOf(u.insn) [] OTHER -> -1
  ELSE IF u.age = 1 /\ Legal(u.insn) THEN MapOf(u.insn) ELSE -1

(* does the decoder object?  {TRUE}, {FALSE}, or either when not documented *)
Objects(u) ==
  IF ~Has(u) THEN BOOLEAN
  ELSE IF IsCsrOp(u.insn)
  THEN CASE u.age = 1 -> {FALSE} [] u.age = 2 -> {~Legal(u.insn)} [] OTHER -> BOOLEAN
  ELSE IF u.age = 1 THEN {~Legal(u.insn) \/ u.insn \in {WEcall, WEbreak}} ELSE BOOLEAN
DecodeCause(u) == IF ~Has(u) THEN U
                  ELSE CASE u.insn = WEcall -> EcallM [] u.insn = WEbreak -> Breakpoint [] OTHER -> IllegalInsn

(* ---- ALU ---- *)
FlipMsb(v) == <<IF v[1] >= Half \div 2 THEN v[1] - Half \div 2 ELSE v[1] + Half \div 2, v[2]>>
FlipLsb(v) == <<v[1], IF v[2] % 2 = 1 THEN v[2] - 1 ELSE v[2] + 1>>
ClearLsb(v) == <<v[1], v[2] - (v[2] % 2)>>
Unary(op) == op \in {5, 6, 7}
AluRaw(op, a, b) ==
  CASE op = 0 -> Add(a, b) [] op = 1 -> Sub(a, b) [] op = 2 -> WAnd(a, b)
    [] op = 3 -> WOr(a, b) [] op = 4 -> WXor(a, b)
    [] op = 5 -> Sll(a, 1) [] op = 6 -> Srl(a, 1) [] op = 7 -> Sra(a, 1)
    [] OTHER -> B2W(Ltu(a, b))
AluOut(w, a, b) ==
  IF ~Known(a) \/ (~Known(b) /\ ~Unary(w[FOp])) THEN U
  ELSE LET bb == IF Known(b) THEN b ELSE Zero
           r == IF w[FImod] = 1 THEN AluRaw(w[FOp], FlipMsb(a), FlipMsb(bb)) ELSE AluRaw(w[FOp], a, bb)
       IN CASE w[FOmod] = 1 -> FlipLsb(r) [] w[FOmod] = 2 -> ClearLsb(r) [] OTHER -> r

(* ---- memory unit ---- *)
Requests(u, w) == w[FReq] = 1 /\ u.guard = 0
(* byte lanes of a data access; -1: not documented (a split halfword)       *)
Lanes(msel, adr) ==
  CASE msel = MByte -> P2(adr[2] % 4)
    [] msel = MHalf -> IF adr[2] % 2 = 1 THEN -1 ELSE IF adr[2] % 4 = 0 THEN 3 ELSE 12
    [] msel = MWord -> 15
    [] OTHER -> -1
ReadAligned(w, adr, d) ==
  LET off == adr[2] % 4 IN
  CASE w[FMsel] = MByte -> IF w[FMext] = 1 THEN SextByte(ByteOf(d, off)) ELSE Small(ByteOf(d, off))
    [] w[FMsel] = MHalf -> IF off % 2 = 1 THEN U
                           ELSE IF w[FMext] = 1 THEN SextHalf(HalfOf(d, off)) ELSE Small(HalfOf(d, off))
    [] w[FMsel] = MWord -> d
    [] OTHER -> U
WriteAligned(msel, adr, v) ==
  CASE msel = MByte -> LET c == v[2] % 256 IN <<c * 256 + c, c * 256 + c>>
    [] msel = MHalf -> <<v[2], v[2]>>
    [] OTHER -> v

(* what the bus shows; U and -1 where nothing is promised                   *)
BusAdrOf(u, w) == IF w[FIf] = 1 THEN u.pc ELSE IF Known(u.adr) THEN AlignDown4(u.adr) ELSE U
BusSelOf(u, w) == IF w[FIf] = 1 THEN 15 ELSE IF Known(u.adr) THEN Lanes(w[FMsel], u.adr) ELSE -1

(* ---- register and CSR files ---- *)
RegIdx(u, sel, in, w) ==      \* -1: not documented
  IF sel = 1 THEN (IF Has(u) THEN Rs2(u.insn) ELSE -1)
  ELSE IF w[FIf] = 1 THEN Rs1(in.dat)
  ELSE IF Has(u) THEN Rs1(u.insn) ELSE -1
Writes(u, w) ==               \* register written this clock, -1 none, -2 unknown
  IF w[FCsrOp] # CsrNone \/ w[FRw] = 0 THEN -1
  ELSE IF w[FRws] = 1 THEN 0
  ELSE IF ~Has(u) THEN -2
  ELSE IF Rd(u.insn) = 0 THEN -1 ELSE Rd(u.insn)
CsrIdx(u, w) ==
  IF w[FCsrSel] = 1 THEN w[FTarget] % 16
  ELSE IF Has(u) /\ IsCsrOp(u.insn) THEN CsrEnc(u.insn) ELSE -1
MStatusOf(u) == IF u.mie = 2 \/ u.mpie = 2 THEN U ELSE <<0, 6144 + 128 * u.mpie + 8 * u.mie>>
CsrValue(u, i, irq) ==
  CASE i = 0 -> MStatusOf(u)
    [] i = 4 -> IF u.meie = 2 THEN U ELSE <<0, 2048 * u.meie>>
    [] i = 12 -> <<0, 2048 * irq>>
    [] i \in {5, 8, 9, 10} -> u.bram[i]
    [] OTHER -> U
BitOf(v, n) == IF Known(v) THEN Bit(v, n) ELSE 2

(* ---- the condition test ---- *)
(* what the exception router signals: a set of possible levels              *)
IrqLevels(u, irq) ==
  IF irq = 0 \/ u.mie = 0 \/ u.meie = 0 THEN {FALSE}
  ELSE IF u.mie = 1 /\ u.meie = 1 THEN {TRUE} ELSE BOOLEAN
Split(u, w) ==
  CASE w[FMsel] = MHalf -> IF Known(u.o) THEN {u.o[2] % 2 = 1} ELSE BOOLEAN
    [] w[FMsel] = MWord -> IF Known(u.o) THEN {u.o[2] % 4 # 0} ELSE BOOLEAN
    [] OTHER -> {FALSE}
(* <<exception, interrupt>> *)
Signals(u, w, irq) ==
  CASE w[FExc] = EDec -> {<<d \/ i, i>> : d \in Objects(u), i \in IrqLevels(u, irq)}
    [] w[FExc] = EJal -> {<<e, FALSE>> : e \in IF Known(u.o) THEN {Bit(u.o, 1) = 1} ELSE BOOLEAN}
    [] w[FExc] \in {EStore, ELoad} -> {<<e, FALSE>> : e \in Split(u, w)}
    [] OTHER -> {<<FALSE, FALSE>>}
Raw(u, w, in, s) ==
  CASE w[FCond] = TExc -> {s[1]}
    [] w[FCond] = TZero -> IF Known(u.o) THEN {u.o = Zero} ELSE BOOLEAN
    [] w[FCond] = TValid -> {in.ack = 1}
    [] OTHER -> {TRUE}
Test(w, raw) == IF w[FInv] = 1 THEN ~raw ELSE raw

NextAt(u, w, t) ==            \* -1: not documented
  IF u.guard = 1 THEN 2
  ELSE CASE w[FJmp] = JCont -> (u.at + 1) % 256
         [] w[FJmp] = JMap -> IF t THEN w[FTarget] ELSE MapTarget(u)
         [] w[FJmp] = JDirect -> IF t THEN w[FTarget] ELSE (u.at + 1) % 256
         [] OTHER -> IF t THEN w[FTarget] ELSE 0

(* ---- one clock ----                                                      *)
(* in: [rst, irq, ack, dat];  s: what the exception router signals;  at:    *)
(* the next microinstruction                                                *)
Tick(u, w, in, s, at) ==
  LET wr == Writes(u, w)
      rd == w[FCsrOp] = CsrNone /\ w[FRr] = 1
      ri == RegIdx(u, w[FRrs], in, w)
      ci == CsrIdx(u, w)
      cw == w[FCsrOp] = CsrWr
      oMasked == IF Known(u.o) THEN AlignDown4(u.o) ELSE U
      xs == CASE wr = -1 -> u.x
              [] wr = -2 -> [i \in 1..32 |-> U]
              [] OTHER -> [u.x EXCEPT ![wr + 1] = u.o]
      decodes == w[FIf] = 1 /\ in.ack = 1
      either(p, v) == IF p = v THEN p ELSE 2        \* a CSR write with unknown address
      m1 == IF cw /\ ci = 0 THEN <<BitOf(u.o, 3), BitOf(u.o, 7)>>
            ELSE IF cw /\ ci = -1 THEN <<either(u.mie, BitOf(u.o, 3)), either(u.mpie, BitOf(u.o, 7))>> ELSE <<u.mie, u.mpie>>
      m2 == CASE w[FExc] = EEnter -> <<0, u.mie>> [] w[FExc] = ELeave -> <<u.mpie, 1>> [] OTHER -> m1
      lanes == IF Known(u.adr) THEN Lanes(w[FMsel], u.adr) ELSE -1
  IN [at |-> at, guard |-> 0,
      a |-> IF w[FLa] = 0 THEN u.a ELSE
            CASE w[FAsrc] = AGp -> u.gp [] w[FAsrc] = AImm -> Imm(u) [] w[FAsrc] = AAlu -> u.o
              [] w[FAsrc] = AZero -> Zero [] w[FAsrc] = AFour -> Four [] w[FAsrc] = ANeg -> Ones
              [] OTHER -> Small(31),
      b |-> IF w[FLb] = 0 THEN u.b ELSE
            CASE w[FBsrc] = BGp -> u.gp [] w[FBsrc] = BPc -> u.pc [] w[FBsrc] = BImm -> Imm(u)
              [] w[FBsrc] = BOne -> One
              [] w[FBsrc] = BDat -> IF in.ack = 1 /\ w[FWe] = 0 /\ w[FIf] = 0 /\ Known(u.adr) THEN ReadAligned(w, u.adr, in.dat) ELSE U
              [] w[FBsrc] = BCsrImm -> IF Has(u) THEN Small(Rs1(u.insn)) ELSE U
              [] w[FBsrc] = BCsr -> u.csr
              [] OTHER -> u.cause,
      o |-> AluOut(w, u.a, u.b),
      gp |-> CASE w[FCsrOp] # CsrNone -> U
               [] rd -> IF ri = -1 \/ wr = -2 THEN U ELSE xs[ri + 1]
               [] wr = -2 \/ (wr >= 0 /\ wr = u.gpa) -> U
               [] OTHER -> u.gp,
      gpa |-> IF w[FCsrOp] # CsrNone THEN -1 ELSE IF rd THEN ri ELSE u.gpa,
      csr |-> IF w[FCsrOp] = CsrRd THEN CsrValue(u, ci, in.irq) ELSE U,
      x |-> xs,
      bram |-> IF cw /\ ci \in {5, 8, 9, 10} THEN [u.bram EXCEPT ![ci] = IF ci \in {5, 9} THEN oMasked ELSE u.o]
               ELSE IF cw /\ ci = -1 THEN [i \in {5, 8, 9, 10} |-> IF u.bram[i] = u.o /\ u.o = Zero THEN Zero ELSE U] ELSE u.bram,
      mie |-> m2[1], mpie |-> m2[2],
      meie |-> IF cw /\ ci = 4 THEN BitOf(u.o, 11) ELSE IF cw /\ ci = -1 THEN either(u.meie, BitOf(u.o, 11)) ELSE u.meie,
      pc |-> CASE w[FPc] = PcInc -> IF Known(u.pc) THEN Add(u.pc, Four) ELSE U
               [] w[FPc] = PcLoad -> oMasked
               [] OTHER -> u.pc,
      insn |-> IF decodes THEN in.dat ELSE u.insn,
      age |-> IF decodes THEN 1 ELSE IF u.age < 3 THEN u.age + 1 ELSE 3,
      cause |-> CASE w[FExc] = EDec -> IF s[2] THEN ExtInterrupt ELSE IF s[1] THEN DecodeCause(u) ELSE u.cause
                  [] w[FExc] = EJal -> IF s[1] THEN InsnMisaligned ELSE u.cause
                  [] w[FExc] = EStore -> IF s[1] THEN StoreMisaligned ELSE u.cause
                  [] w[FExc] = ELoad -> IF s[1] THEN LoadMisaligned ELSE u.cause
                  [] OTHER -> u.cause,
      adr |-> IF w[FLadr] = 1 THEN u.o ELSE u.adr,
      wdat |-> IF w[FLdat] = 0 THEN u.wdat ELSE IF Known(u.o) THEN WriteAligned(w[FMsel], u.adr, u.o) ELSE U,
      wsel |-> IF w[FLdat] = 0 THEN u.wsel ELSE IF lanes = -1 THEN 0 ELSE lanes]

(* the states the machine may be in after this clock; at = -1 in one of     *)
(* them: the microprogram jumped where the documentation does not follow    *)
After(u, w, in) ==
  {LET n == Tick(u, w, in, s, NextAt(u, w, Test(w, r))) IN IF in.rst = 1 THEN AfterReset(n) ELSE n
     : <<s, r>> \in UNION {{<<s, r>> : r \in Raw(u, w, in, s)} : s \in Signals(u, w, in.irq)}}
=============================================================================
