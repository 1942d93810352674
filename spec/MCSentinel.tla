------------------------------ MODULE MCSentinel ------------------------------
(* Sentinel closed with everything the outside world can do, over finite    *)
(* alphabets chosen by IOEnv.FOCUS (a property), and checked exhaustively   *)
(* against all of SentinelProps.  IOEnv.DEPTH transfers are explored from   *)
(* every initial state of the focus; IOEnv.BIG = "1" selects the larger     *)
(* alphabets.                                                               *)
EXTENDS SentinelProps, IOUtils, TLC

VARIABLE n          \* transfers so far
mcvars == <<pc, x, c, ph, ev, n>>

Focus == IOEnv.FOCUS
Depth == atoi(IOEnv.DEPTH)
Big == IOEnv.BIG = "1"

(* ---- values ---- *)
Edge == { <<0, 0>>, <<0, 1>>, <<65535, 65535>>, <<32768, 0>>, <<32767, 65535>>, <<0, 65535>>,
          <<21845, 21845>>, <<43690, 43690>>, <<4660, 22136>> }
MoreEdge == Edge \cup { <<0, 2>>, <<0, 3>>, <<0, 4>>, <<65535, 65534>>, <<65535, 65532>>, <<1, 0>>, <<0, 32768>>,
              <<65535, 0>>, <<65535, 32768>>, <<0, 255>>, <<0, 128>>, <<65280, 65408>>, <<32768, 1>>, <<0, 2047>>,
              <<16384, 0>>, <<49152, 0>>, <<65535, 65472>>, <<127, 65535>> }
Vals == IF Big THEN MoreEdge ELSE Edge
Regs(a, b) == [i \in 1..31 |-> CASE i = 1 -> a [] i = 2 -> b [] OTHER -> <<i * 2000 + 7, 60000 - i * 1234>>]
Csrs(mie, mpie, meie) == [mie |-> mie, mpie |-> mpie, meie |-> meie, mtvec |-> <<23130, 23128>>,
                          mscratch |-> <<51966, 61453>>, mepc |-> <<0, 4096>>, mcause |-> <<0, 3>>]
Quiet == {Csrs(0, 0, 0)}
AllCsrs == {Csrs(a, b, d) : a \in {0, 1}, b \in {0, 1}, d \in {0, 1}}
Pcs == { <<0, 0>>, <<65535, 65532>>, <<4660, 22136>>, <<32767, 65532>> }

(* ---- instruction words ---- *)
R(f7, rs2, rs1, f3, rd, op) == << f7 * 512 + rs2 * 16 + rs1 \div 2, (rs1 % 2) * 32768 + f3 * 4096 + rd * 128 + op >>
I(imm, rs1, f3, rd, op) == R(imm \div 32, imm % 32, rs1, f3, rd, op)          \* imm: 0..4095
S(imm, rs2, rs1, f3) == R(imm \div 32, rs2, rs1, f3, imm % 32, 35)
Br(imm, rs2, rs1, f3) == R(((imm \div 4096) * 64) + ((imm \div 32) % 64), rs2, rs1, f3, ((imm % 32) - (imm % 2)) + ((imm \div 2048) % 2), 99)
U(imm, rd, op) == << imm \div 16, (imm % 16) * 4096 + rd * 128 + op >>          \* imm: 0..2^20-1
J(imm, rd) == << ((imm \div 1048576) % 2) * 32768 + ((imm \div 2) % 1024) * 32 + ((imm \div 2048) % 2) * 16 + ((imm \div 65536) % 16),
                 ((imm \div 4096) % 16) * 4096 + rd * 128 + 111 >>
Imms == {0, 1, 2047, 2048, 4095, 1365} \cup (IF Big THEN {2, 3, 4, 5, 6, 2730, 4092, 4094, 31, 1024, 100} ELSE {})
Offs == {0, 2, 4, 4094, 4096, 8190, 2048, 6} \cup (IF Big THEN {8, 16, 32, 2730, 5460, 64, 1024, 8188} ELSE {})
JOffs == {0, 2, 4, 2048, 4096, 1048574, 1048576, 2097150, 2097148, 65536} \cup (IF Big THEN {2 ^ k : k \in 3..19} ELSE {})
RegPats == {<<3, 1, 2>>, <<1, 1, 2>>, <<2, 1, 2>>, <<1, 1, 1>>, <<0, 1, 2>>, <<3, 0, 2>>, <<3, 1, 0>>, <<3, 2, 1>>}
AluWords == {R(t[1], p[3], p[2], t[2], p[1], 51) : t \in {<<0,0>>, <<32,0>>, <<0,2>>, <<0,3>>, <<0,4>>, <<0,6>>, <<0,7>>}, p \in RegPats}
     \cup {I(imm, p[2], f, p[1], 19) : imm \in Imms, f \in {0, 2, 3, 4, 6, 7}, p \in {<<3, 1>>, <<1, 1>>, <<0, 1>>, <<3, 0>>}}
ShWords == {R(t[1], p[3], p[2], t[2], p[1], 51) : t \in {<<0,1>>, <<0,5>>, <<32,5>>}, p \in RegPats}
     \cup {R(t[1], m, p[2], t[2], p[1], 19) : t \in {<<0,1>>, <<0,5>>, <<32,5>>}, m \in 0..31, p \in {<<3, 1>>, <<1, 1>>, <<0, 1>>}}
UpWords == {U(i, r, o) : i \in {0, 1, 2 ^ 19, 2 ^ 20 - 1, 74565, 699050} \cup {2 ^ k : k \in 0..19}, r \in {0, 3, 31}, o \in {55, 23}}
BrWords == {Br(o, p[2], p[1], f) : o \in Offs, f \in {0, 1, 4, 5, 6, 7}, p \in {<<1, 2>>, <<2, 1>>, <<1, 1>>, <<1, 0>>}}
JWords == {J(o, r) : o \in JOffs, r \in {0, 1, 5}} \cup {I(o, p[1], 0, p[2], 103) : o \in Imms, p \in {<<1, 5>>, <<1, 1>>, <<1, 0>>, <<0, 5>>}}
LdWords == {I(i, p[1], f, p[2], 3) : i \in Imms, f \in {0, 1, 2, 4, 5}, p \in {<<1, 5>>, <<1, 1>>, <<1, 0>>, <<0, 5>>}}
StWords == {S(i, p[2], p[1], f) : i \in Imms, f \in {0, 1, 2}, p \in {<<1, 2>>, <<1, 1>>, <<0, 2>>, <<1, 0>>}}
Sys(f12) == <<f12 * 16, 115>>
TrapWords == {Sys(0), Sys(1), Sys(770), <<0, 0>>, I(1, 0, 2, 3, 3), S(2, 1, 0, 2), J(2, 3), I(768, 8, 6, 0, 115), I(768, 8, 7, 3, 115),
              I(768, 1, 1, 3, 115), I(772, 2, 1, 0, 115), I(833, 2, 1, 0, 115), I(834, 0, 2, 3, 115), I(0, 0, 0, 0, 19)}
CsrNums == {768, 772, 773, 832, 833, 834, 836}
CsrOps(A, regs) == {I(a, s, f, d, 115) : a \in A, f \in {1, 2, 3, 5, 6, 7}, s \in regs, d \in {0, 3}}
MiscWords == {Sys(0), Sys(1), Sys(770), Sys(261), <<4080, 15>>, <<0, 15>>, <<32816, 15>>, <<0, 0>>, <<65535, 65535>>, Sys(2), Sys(258)}
Mix == {R(0, 2, 1, 0, 3, 51), R(32, 2, 1, 5, 1, 51), I(2047, 1, 0, 1, 19), U(74565, 3, 55), U(74565, 2, 23),
        Br(4096, 2, 1, 5), Br(8, 1, 1, 0), Br(6, 1, 1, 0), J(8, 3), J(2, 3), I(0, 1, 0, 3, 103), I(4, 2, 2, 3, 3), I(4, 2, 2, 0, 3), I(1, 0, 0, 1, 3),
        S(0, 2, 1, 2), S(3, 1, 0, 0), Sys(0), Sys(1), Sys(770), Sys(261), <<4080, 15>>, <<0, 0>>,
        I(768, 8, 6, 3, 115), I(768, 8, 7, 3, 115), I(768, 1, 1, 3, 115), I(772, 1, 2, 0, 115), I(836, 2, 3, 3, 115), I(832, 2, 1, 2, 115),
        I(833, 2, 1, 0, 115), I(3857, 0, 1, 3, 115), I(3857, 0, 2, 3, 115)}

Words ==
  CASE Focus = "C02" -> AluWords [] Focus = "C03" -> ShWords [] Focus = "C04" -> UpWords
    [] Focus = "C05" -> BrWords [] Focus = "C06" -> JWords [] Focus \in {"C07", "C21"} -> LdWords [] Focus = "C08" -> StWords
    [] Focus = "C09" -> LdWords \cup StWords [] Focus = "C10" -> BrWords \cup JWords
    [] Focus = "C11" -> {R(f7, 2, 1, f3, 3, op) : f7 \in 0..127, f3 \in 0..7,
                           op \in IF Big THEN 0..127 ELSE {3, 15, 19, 23, 35, 51, 55, 99, 103, 111, 115, 0, 1, 2, 11, 47, 59, 63, 83, 127}}
                        \cup {Sys(k) : k \in 0..4095} \cup {<<t[1] + k, t[2] + 128 * r>> : t \in {Sys(0), Sys(1), Sys(770), Sys(261)}, k \in 0..15, r \in {0, 1, 31}}
    [] Focus = "C12" -> IF Big THEN CsrOps(0..4095, {0, 1}) ELSE {I(a, s, f, 3, 115) : a \in 0..4095, f \in {1, 6}, s \in {0, 1}} \cup CsrOps(768..840 \cup 3856..3862, {0, 1})
    [] Focus = "C13" -> CsrOps(CsrNums, IF Big THEN 0..31 ELSE {0, 1, 2, 3, 8, 31})
    [] Focus = "C14" -> MiscWords
    [] Focus = "C17" -> CsrOps({836, 772, 768}, {0, 1, 8, 31})
    [] Focus = "C18" -> {w \in AluWords \cup ShWords \cup UpWords \cup JWords \cup LdWords \cup CsrOps(CsrNums, {0, 1}) : iRd(w) = 0}
    [] Focus = "C22" -> Mix \cup ShWords \cup MiscWords
    [] Focus = "C27" -> {w \in AluWords \cup UpWords : iRs1(w) < 2} \cup CsrOps(CsrNums, {1}) \cup MiscWords
    [] Focus = "C15" -> TrapWords
    [] OTHER -> Mix

(* the first step is split by instruction word, so that workers can share it *)
Parts == IF Focus \in {"C11", "C12", "C14", "C18"} THEN 16 ELSE 1
InPart(w) == IF n > 0 \/ Parts = 1 THEN TRUE ELSE (w[1] + w[2] \div 128) % Parts = ev.part

(* a focus that needs two operands, one, or only control state *)
Init2 == \E a \in Vals, b \in (IF Focus = "C10" THEN Edge ELSE Vals) : x = Regs(a, b)
Init1 == \E a \in Vals : x = Regs(a, <<0, 5>>)
InitShift == \E a \in (IF Big THEN Vals ELSE {<<32768, 1>>, <<21845, 43690>>, <<65535, 65535>>, <<4660, 22136>>}), k \in 0..31 : x = Regs(a, <<4660, 22112 + k>>)
Loose == Focus \in {"C01", "C15", "C16", "C17", "C20", "C24", "C25", "C22"}    \* interrupts matter
Init ==
  /\ CASE Focus \in {"C02", "C05", "C10"} -> Init2
       [] Focus \in {"C03"} -> InitShift
       [] Focus \in {"C07", "C08", "C09", "C13", "C06", "C21"} ->
            \E a \in (IF Big \/ Focus = "C13" THEN Vals ELSE {<<0, 0>>, <<65535, 65535>>, <<32767, 65534>>}) \cup {<<4660, 22136 + k>> : k \in 0..3}, b \in {<<0, 5>>, <<51966, 47806>>} : x = Regs(a, b)
       [] Focus \in {"C11", "C12"} -> x = Regs(<<0, 8>>, <<0, 2048>>)
       [] Focus \in {"C15", "C16", "C20", "C24", "C25"} -> \E a \in {<<0, 128>>, <<65535, 65535>>} : x = Regs(a, <<0, 2048>>)
       [] Focus \in {"C01", "C14", "C22"} -> \E a \in {<<0, 0>>, <<0, 129>>, <<65535, 65534>>} : x = Regs(a, <<0, 2051>>)
       [] OTHER -> Init1
  /\ pc \in IF Focus \in {"C04", "C05", "C06", "C10", "C27"} THEN Pcs ELSE {<<4660, 22136>>}
  /\ c \in IF Loose THEN AllCsrs ELSE IF Focus = "C13" THEN {Csrs(0, 0, 0), Csrs(0, 1, 1)} ELSE Quiet
  /\ ph = FetchPhase
  /\ ev \in {[k |-> "init", part |-> q] : q \in 0..(Parts - 1)}
  /\ n = 0

LoadData == {<<0, 0>>, <<65535, 65535>>, <<33153, 33153>>, <<32639, 32639>>, <<4660, 22136>>, <<128, 32768>>}

DoFetch(w, i, m) == Fetch(w, i, m) /\ ev' = [k |-> "fetch", w |-> w, i |-> Decode(w), irq |-> i, mip |-> m]
DoLoad(d) == Load(d) /\ ev' = [k |-> "load", i |-> ev.i, d |-> d]
DoStore == Store /\ ev' = [k |-> "store"]
(* loads and stores: one instruction, and its data phase                    *)
Alone == Focus \in {"C07", "C08", "C21"} => n = 0
(* what a reset leaves behind: everything kept, or everything else          *)
DoReset == /\ Focus \in {"C01", "C15", "C18"}
           /\ \E p \in {0, 1}, keep \in BOOLEAN :
                IF keep THEN ResetTo(x, p, c.mtvec, c.mscratch, c.mepc)
                ELSE ResetTo([i \in 1..31 |-> <<57005, 48876>>], p, <<1, 4>>, <<2, 2>>, <<3, 8>>)
           /\ ev' = [k |-> "reset"]
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E w \in Words, i \in (IF Loose THEN {0, 1} ELSE {0}), m \in (IF Loose \/ Focus = "C13" THEN {0, 1} ELSE {0}) :
                Alone /\ InPart(w) /\ (m = 1 => iCsr(w) = 836) /\ DoFetch(w, i, m)
           \/ (ph[1] = "L" /\ \E d \in LoadData : DoLoad(d))
           \/ DoStore
           \/ DoReset
Spec == Init /\ [][Next]_mcvars

Types == /\ IsWord(pc) /\ pc[2] % 4 = 0 /\ \A i \in 1..31 : IsWord(x[i])
         /\ c.mie \in {0, 1} /\ c.mpie \in {0, 1} /\ c.meie \in {0, 1}
         /\ IsWord(c.mtvec) /\ c.mtvec[2] % 4 = 0 /\ IsWord(c.mepc) /\ c.mepc[2] % 4 = 0
         /\ ph[1] \in {"F", "L", "S"} /\ (ph[1] = "F" => ph = FetchPhase)
         /\ BusSel \in {1, 2, 4, 8, 3, 12, 15} /\ BusAdr[2] % 4 = 0
(* the hart can always take the next transfer, whatever the world answers   *)
NeverStuck == (n < Depth /\ Alone /\ ph[1] = "F") => \A w \in {<<0, 0>>, Sys(770), I(0, 1, 2, 3, 3)}, i \in {0, 1} : ENABLED Fetch(w, i, 0)

C01 == [][P01]_mcvars   C02 == [][P02]_mcvars   C03 == [][P03]_mcvars   C04 == [][P04]_mcvars
C05 == [][P05]_mcvars   C06 == [][P06]_mcvars   C07 == [][P07a /\ P07b]_mcvars   C08 == [][P08a /\ P08b]_mcvars
C09 == [][P09]_mcvars   C10 == [][P10]_mcvars   C11 == [][P11]_mcvars   C12 == [][P12]_mcvars
C13 == [][P13]_mcvars   C14 == [][P14]_mcvars   C15 == [][P15]_mcvars   C16 == [][P16]_mcvars
C17 == [][P17]_mcvars   C18 == [][P18]_mcvars   C20 == [][P20]_mcvars   C21 == [][P21]_mcvars
C22 == [][P22]_mcvars   C24 == [][P24]_mcvars   C25 == [][P25]_mcvars   C27 == [][P27]_mcvars
=============================================================================
