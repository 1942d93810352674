---------------------------- MODULE SentinelProps ----------------------------
(* The listed properties, stated over the steps of Sentinel in other terms  *)
(* than the ones Sentinel itself is written in: results bit by bit, legal   *)
(* encodings as the mask/match table of the ISA manual, traps and           *)
(* interrupts by what may and may not differ between two states.  Each is   *)
(* an action predicate over (pc, x, c, ph), their primed values and the     *)
(* event ev' that caused the step:                                          *)
(*   [k |-> "fetch", w, i, irq, mip]  [k |-> "load", i, d]  [k |-> "store"]       *)
(*   [k |-> "reset"]                                                        *)
EXTENDS Sentinel

VARIABLE ev

(* ---- words as bits ---- *)
E2 == [i \in 0..16 |-> 2 ^ i]
B(a, i) == IF i < 16 THEN (a[2] \div E2[i]) % 2 ELSE (a[1] \div E2[i - 16]) % 2
Bits == 0..31
Same(r, f(_)) == \A i \in Bits : B(r, i) = f(i)
Maj(p, q, s) == IF p + q + s >= 2 THEN 1 ELSE 0
(* carry into each position of a + b + cin, b given as a bit function       *)
RECURSIVE CarryUp(_, _, _, _)
CarryUp(a, b, cs, i) == IF i = 31 THEN cs
                        ELSE CarryUp(a, b, Append(cs, Maj(B(a, i), b[i], cs[i + 1])), i + 1)
Carries(a, b, cin) == CarryUp(a, b, <<cin>>, 0)      \* [i + 1] = into bit i
IsSumB(r, a, b, cin) == LET cs == Carries(a, b, cin) IN
  \A i \in Bits : B(r, i) = (B(a, i) + b[i] + cs[i + 1]) % 2
AsBits(a) == [i \in Bits |-> B(a, i)]
IsSum(r, a, b) == IsSumB(r, a, AsBits(b), 0)
IsDiff(r, a, b) == IsSumB(r, a, [i \in Bits |-> 1 - B(b, i)], 1)
(* the most significant difference decides                                  *)
LessU(a, b) == \E i \in Bits : B(a, i) < B(b, i) /\ \A j \in Bits : j > i => B(a, j) = B(b, j)
LessS(a, b) == \/ B(a, 31) = 1 /\ B(b, 31) = 0
               \/ B(a, 31) = B(b, 31) /\ LessU(a, b)
Flag(p) == IF p THEN <<0, 1>> ELSE <<0, 0>>

(* ---- instruction fields and immediates, by bit position ---- *)
RECURSIVE NumR(_, _, _)
NumR(w, lo, n) == IF n = 0 THEN 0 ELSE B(w, lo) + 2 * NumR(w, lo + 1, n - 1)
Fld(w, hi, lo) == NumR(w, lo, hi - lo + 1)
iOp(w) == Fld(w, 6, 0)   iRd(w) == Fld(w, 11, 7)   iF3(w) == Fld(w, 14, 12)
iRs1(w) == Fld(w, 19, 15)   iRs2(w) == Fld(w, 24, 20)   iF7(w) == Fld(w, 31, 25)
iCsr(w) == Fld(w, 31, 20)
BI(w) == [i \in Bits |-> IF i < 11 THEN B(w, 20 + i) ELSE B(w, 31)]
BS(w) == [i \in Bits |-> IF i < 5 THEN B(w, 7 + i) ELSE IF i < 11 THEN B(w, 20 + i) ELSE B(w, 31)]
BB(w) == [i \in Bits |-> CASE i = 0 -> 0 [] i \in 1..4 -> B(w, 7 + i) [] i \in 5..10 -> B(w, 20 + i)
                           [] i = 11 -> B(w, 7) [] OTHER -> B(w, 31)]
BU(w) == [i \in Bits |-> IF i < 12 THEN 0 ELSE B(w, i)]
BJ(w) == [i \in Bits |-> CASE i = 0 -> 0 [] i \in 1..10 -> B(w, 20 + i) [] i = 11 -> B(w, 20)
                           [] i \in 12..19 -> B(w, i) [] OTHER -> B(w, 31)]

(* ---- the legal encodings: mask and match, as in the manual's tables ---- *)
(* SYSTEM/CSR words also depend on the CSR and on whether they write.       *)
H(a, b, cc, d, e, f, g, h) == << a * 4096 + b * 256 + cc * 16 + d, e * 4096 + f * 256 + g * 16 + h >>
mOp == H(0,0,0,0,0,0,7,15)      mF3 == H(0,0,0,0,7,0,7,15)
mF7 == H(15,14,0,0,7,0,7,15)    mAll == H(15,15,15,15,15,15,15,15)
Enc == {
  <<mOp, H(0,0,0,0,0,0,3,7)>>,  <<mOp, H(0,0,0,0,0,0,1,7)>>,  <<mOp, H(0,0,0,0,0,0,6,15)>>,   \* lui auipc jal
  <<mF3, H(0,0,0,0,0,0,6,7)>>,                                                                \* jalr
  <<mF3, H(0,0,0,0,0,0,6,3)>>, <<mF3, H(0,0,0,0,1,0,6,3)>>, <<mF3, H(0,0,0,0,4,0,6,3)>>,      \* beq bne blt
  <<mF3, H(0,0,0,0,5,0,6,3)>>, <<mF3, H(0,0,0,0,6,0,6,3)>>, <<mF3, H(0,0,0,0,7,0,6,3)>>,      \* bge bltu bgeu
  <<mF3, H(0,0,0,0,0,0,0,3)>>, <<mF3, H(0,0,0,0,1,0,0,3)>>, <<mF3, H(0,0,0,0,2,0,0,3)>>,      \* lb lh lw
  <<mF3, H(0,0,0,0,4,0,0,3)>>, <<mF3, H(0,0,0,0,5,0,0,3)>>,                                   \* lbu lhu
  <<mF3, H(0,0,0,0,0,0,2,3)>>, <<mF3, H(0,0,0,0,1,0,2,3)>>, <<mF3, H(0,0,0,0,2,0,2,3)>>,      \* sb sh sw
  <<mF3, H(0,0,0,0,0,0,1,3)>>, <<mF3, H(0,0,0,0,2,0,1,3)>>, <<mF3, H(0,0,0,0,3,0,1,3)>>,      \* addi slti sltiu
  <<mF3, H(0,0,0,0,4,0,1,3)>>, <<mF3, H(0,0,0,0,6,0,1,3)>>, <<mF3, H(0,0,0,0,7,0,1,3)>>,      \* xori ori andi
  <<mF7, H(0,0,0,0,1,0,1,3)>>, <<mF7, H(0,0,0,0,5,0,1,3)>>, <<mF7, H(4,0,0,0,5,0,1,3)>>,      \* slli srli srai
  <<mF7, H(0,0,0,0,0,0,3,3)>>, <<mF7, H(4,0,0,0,0,0,3,3)>>, <<mF7, H(0,0,0,0,1,0,3,3)>>,      \* add sub sll
  <<mF7, H(0,0,0,0,2,0,3,3)>>, <<mF7, H(0,0,0,0,3,0,3,3)>>, <<mF7, H(0,0,0,0,4,0,3,3)>>,      \* slt sltu xor
  <<mF7, H(0,0,0,0,5,0,3,3)>>, <<mF7, H(4,0,0,0,5,0,3,3)>>, <<mF7, H(0,0,0,0,6,0,3,3)>>,      \* srl sra or
  <<mF7, H(0,0,0,0,7,0,3,3)>>,                                                                \* and
  <<mF3, H(0,0,0,0,0,0,0,15)>>,                                                               \* fence
  <<mAll, H(0,0,0,0,0,0,7,3)>>, <<mAll, H(0,0,1,0,0,0,7,3)>>,                                 \* ecall ebreak
  <<mAll, H(3,0,2,0,0,0,7,3)>>, <<mAll, H(1,0,5,0,0,0,7,3)>> }                                \* mret wfi
Masked(w, m) == <<w[1] & m[1], w[2] & m[2]>>
CsrShape(w) == iOp(w) = 115 /\ iF3(w) % 4 # 0
(* CSR numbers written as the manual groups them: privilege, read-only bits *)
CsrWritable(a) == a \in {768, 772, 773, 832, 833, 834, 836}
CsrZeroRw(a) == a \in {769, 784, 800, 835} \cup {803 + n : n \in 0..28}
                 \cup {2816 + n : n \in (0..31) \ {1}} \cup {2944 + n : n \in (0..31) \ {1}}
CsrZeroRo(a) == a \in {3856 + n : n \in 1..5}
CsrMayWrite(w) == iF3(w) \in {1, 5} \/ iRs1(w) > 0
CsrOk(w) == LET a == iCsr(w) IN CsrWritable(a) \/ CsrZeroRw(a) \/ (CsrZeroRo(a) /\ ~CsrMayWrite(w))
IsLegal(w) == IF CsrShape(w) THEN CsrOk(w) ELSE \E t \in Enc : Masked(w, t[1]) = t[2]
(* all of it, once per fetched word                                         *)
Decode(w) == [op |-> iOp(w), rd |-> iRd(w), f3 |-> iF3(w), rs1 |-> iRs1(w), rs2 |-> iRs2(w), csr |-> iCsr(w),
              legal |-> IsLegal(w), csrop |-> CsrShape(w), csrw |-> CsrMayWrite(w),
              imm |-> CASE iOp(w) \in {19, 3, 103} -> BI(w) [] iOp(w) = 35 -> BS(w) [] iOp(w) = 99 -> BB(w)
                        [] iOp(w) \in {55, 23} -> BU(w) [] iOp(w) = 111 -> BJ(w) [] OTHER -> <<>>]

(* ---- what happened ---- *)
Fetched == ev'.k = "fetch"
Word == ev'.w
Ins == ev'.i
Pend == c.mie = 1 /\ c.meie = 1 /\ Fetched /\ ev'.irq = 1
Entered(cause) == /\ c'.mepc = pc /\ c'.mcause = cause /\ c'.mpie = c.mie /\ c'.mie = 0
                  /\ pc' = c.mtvec
Runs == Fetched /\ ~Pend /\ Ins.legal          \* the word is really executed
X(r) == IF r = 0 THEN <<0, 0>> ELSE x[r]
Xn(r) == IF r = 0 THEN <<0, 0>> ELSE x'[r]
NextPc(p) == IsSum(p, pc, <<0, 4>>)
KeepX == x' = x
KeepC == c' = c
OnlyRd == \A r \in 1..31 : r # Ins.rd => x'[r] = x[r]
(* rd receives a value given as a test of it; nothing else changes          *)
Gives(Test(_)) == /\ Ins.rd # 0 => Test(Xn(Ins.rd))
                     /\ OnlyRd /\ KeepC /\ NextPc(pc') /\ ph' = FetchPhase
BitsOf(f) == << f[16] + 2 * f[17] + 4 * f[18] + 8 * f[19] + 16 * f[20] + 32 * f[21] + 64 * f[22] + 128 * f[23]
                + 256 * f[24] + 512 * f[25] + 1024 * f[26] + 2048 * f[27] + 4096 * f[28] + 8192 * f[29] + 16384 * f[30] + 32768 * f[31],
                f[0] + 2 * f[1] + 4 * f[2] + 8 * f[3] + 16 * f[4] + 32 * f[5] + 64 * f[6] + 128 * f[7]
                + 256 * f[8] + 512 * f[9] + 1024 * f[10] + 2048 * f[11] + 4096 * f[12] + 8192 * f[13] + 16384 * f[14] + 32768 * f[15] >>
(* a word that is the sum of a word and an immediate *)
TheSum(a, imm) == CHOOSE r \in {Add(a, BitsOf(imm))} : IsSumB(r, a, imm, 0)

(* ---- C01 ---- *)
P01 == ev'.k = "reset" => /\ pc' = <<0, 0>> /\ ph' = FetchPhase
                          /\ c'.mie = 0 /\ c'.meie = 0 /\ c'.mcause = <<0, 0>> /\ Xn(0) = <<0, 0>>

(* ---- C02 ---- *)
AluTest(f, sub, a, b, r) ==
  CASE f = 0 /\ ~sub -> IsSumB(r, a, b, 0)
    [] f = 0 -> IsSumB(r, a, [i \in Bits |-> 1 - b[i]], 1)
    [] f = 2 -> r = Flag(LessS(a, BitsOf(b)))
    [] f = 3 -> r = Flag(LessU(a, BitsOf(b)))
    [] f = 4 -> \A i \in Bits : B(r, i) = (B(a, i) + b[i]) % 2
    [] f = 6 -> \A i \in Bits : B(r, i) = B(a, i) + b[i] - B(a, i) * b[i]
    [] OTHER -> \A i \in Bits : B(r, i) = B(a, i) * b[i]
P02 == (Runs /\ Ins.op \in {19, 51} /\ Ins.f3 \notin {1, 5}) =>
  LET w == Word
      b == IF Ins.op = 19 THEN Ins.imm ELSE AsBits(X(Ins.rs2))
      Test(r) == AluTest(Ins.f3, Ins.op = 51 /\ B(w, 30) = 1, X(Ins.rs1), b, r)
  IN Gives(Test)

(* ---- C03 ---- *)
P03 == (Runs /\ Ins.op \in {19, 51} /\ Ins.f3 \in {1, 5}) =>
  LET w == Word  a == X(Ins.rs1)
      n == IF Ins.op = 19 THEN Fld(w, 24, 20) ELSE Fld(X(Ins.rs2), 4, 0)
      Test(r) == \A i \in Bits : B(r, i) =
        IF Ins.f3 = 1 THEN (IF i >= n THEN B(a, i - n) ELSE 0)
        ELSE IF i + n <= 31 THEN B(a, i + n) ELSE IF B(w, 30) = 1 THEN B(a, 31) ELSE 0
  IN Gives(Test)

(* ---- C04 ---- *)
P04 == (Runs /\ Ins.op \in {55, 23}) =>
  LET w == Word
      Test(r) == IF Ins.op = 55 THEN Same(r, LAMBDA i : Ins.imm[i]) ELSE IsSumB(r, pc, Ins.imm, 0)
  IN Gives(Test)

(* ---- C05, C10 ---- *)
Holds(f, a, b) == CASE f = 0 -> \A i \in Bits : B(a, i) = B(b, i) [] f = 1 -> \E i \in Bits : B(a, i) # B(b, i)
                    [] f = 4 -> LessS(a, b) [] f = 5 -> ~LessS(a, b) [] f = 6 -> LessU(a, b) [] OTHER -> ~LessU(a, b)
P05 == (Runs /\ Ins.op = 99) =>
  LET w == Word  t == TheSum(pc, Ins.imm) IN
  /\ KeepX
  /\ IF ~Holds(Ins.f3, X(Ins.rs1), X(Ins.rs2)) THEN NextPc(pc') /\ KeepC
     ELSE B(w, 8) = 0 => pc' = t /\ KeepC           \* pc is a multiple of four
(* ---- C06 ---- *)
JTarget == IF Ins.op = 111 THEN TheSum(pc, Ins.imm)
              ELSE LET s == TheSum(X(Ins.rs1), Ins.imm) IN <<s[1], s[2] - (s[2] % 2)>>
P06 == (Runs /\ Ins.op \in {111, 103}) =>
  LET w == Word  t == JTarget IN
  B(t, 1) = 0 => /\ pc' = t /\ KeepC /\ OnlyRd
                 /\ Ins.rd # 0 => IsSum(x'[Ins.rd], pc, <<0, 4>>)
P10 == (Runs /\ Ins.op \in {111, 103, 99}) =>
  LET w == Word
      goes == Ins.op # 99 \/ Holds(Ins.f3, X(Ins.rs1), X(Ins.rs2))
      t == IF Ins.op = 99 THEN TheSum(pc, Ins.imm) ELSE JTarget
  IN IF goes /\ B(t, 1) = 1 THEN Entered(<<0, 0>>) /\ KeepX /\ ph' = FetchPhase ELSE KeepC

(* ---- C07, C08, C09 ---- *)
BytesOf(f) == CASE f % 4 = 0 -> 1 [] f % 4 = 1 -> 2 [] OTHER -> 4
Bytes == BytesOf(Ins.f3)
EffAdr == TheSum(X(Ins.rs1), Ins.imm)
MemOp == Runs /\ Ins.op \in {3, 35}
P09 == MemOp => LET w == Word  a == EffAdr IN
  IF a[2] % Bytes # 0
  THEN Entered(IF Ins.op = 3 THEN <<0, 4>> ELSE <<0, 6>>) /\ KeepX /\ ph' = FetchPhase
  ELSE KeepC /\ KeepX /\ NextPc(pc') /\ ph'[1] = IF Ins.op = 3 THEN "L" ELSE "S"
SelBits(s) == {i \in 0..3 : (s \div E2[i]) % 2 = 1}
DataAccess == LET a == EffAdr  o == a[2] % 4 IN
  /\ BusAdr' = <<a[1], a[2] - o>>
  /\ SelBits(BusSel') = o..(o + Bytes - 1)
  /\ BusWe' = IF Ins.op = 35 THEN 1 ELSE 0
P07a == (MemOp /\ Ins.op = 3 /\ ph'[1] = "L") => DataAccess
(* the access remembers the instruction: mem = [w, a] (a history variable)  *)
P07b == ev'.k = "load" =>
  LET d == ev'.d  o == ph[3][2] % 4  n == 8 * BytesOf(ev.i.f3)
      Val(i) == IF i < n THEN B(d, i + 8 * o) ELSE IF ev.i.f3 < 3 THEN B(d, 8 * o + n - 1) ELSE 0
  IN /\ ev.i.rd # 0 => Same(x'[ev.i.rd], Val)
     /\ OnlyRd /\ KeepC /\ pc' = pc /\ ph' = FetchPhase
P08a == (MemOp /\ Ins.op = 35 /\ ph'[1] = "S") =>
  /\ DataAccess
  /\ \A d \in {ph'[4], Sll(ph'[4], 8), Sll(ph'[4], 16), Sll(ph'[4], 24),
               <<(ph'[4][2] % 256) * 257, (ph'[4][2] % 256) * 257>>, <<ph'[4][2], ph'[4][2]>>,
               <<0, 0>>, <<65535, 65535>>} :
       \* what the trace specification accepts as data is right on every selected lane
       LanesOk(ph'[2], ph'[3], ph'[4], d) <=>
         \A i \in 0..(8 * Bytes - 1) : B(d, i + 8 * (ph'[3][2] % 4)) = B(X(Ins.rs2), i)
P08b == ev'.k = "store" => KeepX /\ KeepC /\ pc' = pc /\ ph' = FetchPhase

(* ---- C11, C12 ---- *)
P11 == (Fetched /\ ~Pend) => /\ (~Ins.legal => Entered(<<0, 2>>) /\ KeepX /\ ph' = FetchPhase)
                             /\ (Ins.legal => ~(c'.mcause = <<0, 2>> /\ c.mcause # <<0, 2>>
                                                    /\ c'.mepc = pc /\ ~Ins.csrop))
P12 == (Fetched /\ ~Pend /\ Ins.csrop) =>
  LET w == Word  a == Ins.csr IN
  /\ Ins.legal <=> ~Entered(<<0, 2>>) \/ (NextPc(pc') /\ pc' # c.mtvec)
  /\ (Ins.legal /\ ~CsrWritable(a)) => KeepC /\ Xn(Ins.rd) = <<0, 0>>
  /\ (Ins.legal /\ ~Ins.csrw) => KeepC

(* ---- C13, C17 ---- *)
(* a CSR as bits: which are implemented, and what is read                   *)
CsrBit(cc, irq, a, i) ==
  CASE a = 768 -> CASE i = 3 -> cc.mie [] i = 7 -> cc.mpie [] i \in {11, 12} -> 1 [] OTHER -> 0
    [] a = 772 -> IF i = 11 THEN cc.meie ELSE 0
    [] a = 836 -> IF i = 11 THEN irq ELSE 0
    [] a = 773 -> B(cc.mtvec, i) [] a = 832 -> B(cc.mscratch, i)
    [] a = 833 -> B(cc.mepc, i)  [] a = 834 -> B(cc.mcause, i) [] OTHER -> 0
Settable(a, i) == CASE a = 768 -> i \in {3, 7} [] a = 772 -> i = 11 [] a \in {773, 833} -> i > 1
                    [] a \in {832, 834} -> TRUE [] OTHER -> FALSE
P13 == (Runs /\ Ins.csrop) =>
  LET w == Word  a == Ins.csr
      src(i) == IF Ins.f3 >= 4 THEN (IF i < 5 THEN B(w, 15 + i) ELSE 0) ELSE B(X(Ins.rs1), i)
      old(i) == CsrBit(c, ev'.mip, a, i)
      new(i) == CASE Ins.f3 % 4 = 1 -> src(i) [] Ins.f3 % 4 = 2 -> old(i) + src(i) - old(i) * src(i)
                  [] OTHER -> old(i) * (1 - src(i))
  IN /\ Ins.rd # 0 => Same(x'[Ins.rd], old)
     /\ OnlyRd /\ NextPc(pc') /\ ph' = FetchPhase
     /\ \A i \in Bits : CsrBit(c', ev'.mip, a, i) = IF Settable(a, i) /\ Ins.csrw THEN new(i) ELSE old(i)
     /\ \A o \in {768, 772, 773, 832, 833, 834} : o # a => \A i \in Bits : CsrBit(c', 0, o, i) = CsrBit(c, 0, o, i)
P17 == (Runs /\ Ins.csrop /\ Ins.csr = 836) => /\ KeepC
                                                       /\ Ins.rd # 0 => x'[Ins.rd] = <<0, ev'.mip * 2048>>

(* ---- C14, C15 ---- *)
P14 == /\ (Runs /\ Word = H(0,0,0,0,0,0,7,3)) => Entered(<<0, 11>>) /\ KeepX /\ ph' = FetchPhase
       /\ (Runs /\ Word = H(0,0,1,0,0,0,7,3)) => Entered(<<0, 3>>) /\ KeepX /\ ph' = FetchPhase
       /\ (Runs /\ (Ins.op = 15 \/ Word = H(1,0,5,0,0,0,7,3))) => KeepX /\ KeepC /\ NextPc(pc') /\ ph' = FetchPhase
P15 == /\ (Runs /\ Word = H(3,0,2,0,0,0,7,3)) =>
            /\ pc' = c.mepc /\ c'.mie = c.mpie /\ c'.mpie = 1 /\ KeepX /\ ph' = FetchPhase
            /\ c' = [c EXCEPT !.mie = c'.mie, !.mpie = c'.mpie]
       /\ (Fetched /\ c'.mcause[1] >= 32768 /\ c'.mcause # c.mcause /\ ~Ins.csrop) => Pend
       /\ (c'.mepc # c.mepc \/ c'.mcause # c.mcause) =>      \* only traps, CSR writes and resets do that
            \/ ev'.k = "reset" \/ Entered(c'.mcause) \/ (Runs /\ Ins.csrop)

(* ---- C16 ---- *)
P16 == /\ Pend => Entered(<<32768, 11>>) /\ KeepX /\ ph' = FetchPhase
       /\ (Fetched /\ ~Pend) => (Runs \/ Entered(<<0, 2>>))

(* ---- C18 ---- *)
P18 == Xn(0) = <<0, 0>> /\ ((Fetched /\ Ins.rd = 0) => KeepX)

(* ---- C20 ---- *)
P20 == /\ Fetched => ph = FetchPhase
       /\ Fetched => (ph' # FetchPhase <=> Runs /\ Ins.op \in {3, 35} /\ EffAdr[2] % Bytes = 0)
       /\ ev'.k \in {"load", "store"} => ph' = FetchPhase

(* ---- C24, C25, C27 ---- *)
Changed == {r \in 1..31 : x'[r] # x[r]}
P24 == /\ Fetched => Changed \subseteq {Ins.rd}
       /\ ev'.k = "load" => Changed \subseteq {ev.i.rd}
       /\ ev'.k = "store" => Changed = {}
       /\ (Fetched /\ c' # c) => \/ Pend \/ ~Ins.legal \/ Ins.op \in {115, 99, 111, 103, 3, 35}
(* must this word trap, by what the manual says                              *)
MustTrap == \/ ~Ins.legal \/ Word \in {<<0, 115>>, <<16, 115>>}
            \/ Ins.op \in {3, 35} /\ EffAdr[2] % Bytes # 0
            \/ Ins.op \in {111, 103} /\ B(JTarget, 1) = 1
            \/ Ins.op = 99 /\ Holds(Ins.f3, X(Ins.rs1), X(Ins.rs2)) /\ B(Word, 8) = 1
P25 == (Fetched /\ (Pend \/ MustTrap)) =>
         (Entered(c'.mcause) /\ KeepX /\ c'.mscratch = c.mscratch /\ c'.mtvec = c.mtvec /\ c'.meie = c.meie /\ ph' = FetchPhase)
P27 == (Runs /\ Ins.op \in {15, 19, 23, 51, 55} \cup (IF Ins.csrop THEN {115} ELSE {})) => NextPc(pc')

(* ---- C21: no step looks at anything but the acknowledged data, and of    *)
(* that only at the selected lanes                                          *)
P21 == ev'.k = "load" =>
  LET m == [i \in 0..3 |-> (BusSel \div E2[i]) % 2]
      junk == <<m[3] * 65280 + m[2] * 255, m[1] * 65280 + m[0] * 255>>
  IN \A g \in {<<0, 0>>, <<65535, 65535>>} :
       LoadVal(ph[2], ph[3], WOr(WAnd(ev'.d, junk), WAnd(g, WNot(junk)))) = LoadVal(ph[2], ph[3], ev'.d)

(* ---- C22: every step has a finite documented clock budget ---- *)
P22 == (Fetched /\ ~Pend) =>
  LET w == Word  n == Clocks(w, Exec(w, pc, x, c, ev'.mip), x)
      sh == IF Ins.op = 51 THEN Fld(X(Ins.rs2), 4, 0) ELSE Fld(w, 24, 20)
  IN /\ n \in 4..69
     /\ (Ins.legal /\ Ins.op \in {19, 51} /\ Ins.f3 \notin {1, 5}) => n = 4
     /\ (Ins.legal /\ Ins.op \in {19, 51} /\ Ins.f3 \in {1, 5} /\ sh > 0) => n = 7 + 2 * sh
     /\ (Ins.op = 99 /\ ~MustTrap) => n = IF Holds(Ins.f3, X(Ins.rs1), X(Ins.rs2)) THEN 8 ELSE 7
     /\ n > 10 => MustTrap \/ (Ins.f3 \in {1, 5} /\ sh > 0)
=============================================================================
