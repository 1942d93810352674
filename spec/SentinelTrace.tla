--------------------------- MODULE SentinelTrace ---------------------------
(* Trace validation: is each recorded execution of the real core a          *)
(* behaviour of Sentinel?  The verdict is total: every segment ends with an *)
(* OK line, or with a BAD line naming the clause that failed and what was   *)
(* expected.  Events (arrays of integers, 32-bit values as two halves):     *)
(*   [k, adrH, adrL, sel, datH, datL, gap, wait, stable, d1, d2, mMin, mMax]*)
(*   k: 0 read  1 write  2 reset  7 request dropped  8 silence  9 end probe *)
(*   gap    clocks without a request before this transfer                   *)
(*   wait   clocks the request waited before the clock of its ACK           *)
(*   stable address, select, direction and data did not change meanwhile    *)
(*   d1 d2  interrupt line in the first and second clock after the ACK      *)
(*   mMin mMax  its range from the third clock to the next transfer         *)
EXTENDS Sentinel, Json, IOUtils, TLC

CONSTANT CheckTiming      \* also hold each transfer to Sentinel's timing?
Trace == JsonDeserialize(IOEnv.TRACE)
Explain == IOEnv.EXPLAIN = "1"  \* keep and print the history of each segment
\* ... from which event on (all of a very long one would be slow)
From == IF Explain THEN JsonDeserialize(IOEnv.FROM) ELSE <<>>

VARIABLES seg, l,
  tm,   \* most clocks that may pass before the next request
  hist  \* <<phase, outcome>> of each event (only when explaining)

tvars == <<pc, x, c, ph, seg, l, tm, hist>>

Unknown == <<57005, 48876>>

TraceInit ==
  /\ seg \in 1..Len(Trace)
  /\ l = 1
  /\ pc = Zero /\ x = [i \in 1..31 |-> Unknown]
  /\ c = CsrInit(0, Unknown, Unknown, Unknown)
  /\ ph = FetchPhase
  /\ tm = 1000 /\ hist = <<>>

Stop == l' = 0 /\ UNCHANGED <<pc, x, c, ph, seg, tm, hist>>
Bad(clause, expect) ==
  /\ PrintT(<<"BAD", seg, l, clause, expect, ph, pc,
              <<c.mie, c.mpie, c.meie, c.mtvec, c.mscratch, c.mepc, c.mcause>>, x, hist>>)
  /\ Stop

EvAdr(e) == <<e[2], e[3]>>
EvDat(e) == <<e[5], e[6]>>
Gap(e) == e[7]

(* outcomes: 0 retired, 1 trap, 2 interrupt, 3 reset, 4 data transfer done, *)
(* 5 end probe                                                              *)
Log(o) == hist' = IF Explain THEN (IF l > From[seg] THEN Append(hist, <<ph[1], o, pc>>) ELSE hist) ELSE hist

(* Coverage: how often each outcome of each instruction class was taken.    *)
Class(w) == LET op == Opcode(w) IN
  CASE op = OpImm -> IF F3(w) \in {1, 5} THEN 2 ELSE 1
    [] op = OpReg -> IF F3(w) \in {1, 5} THEN 2 ELSE 1
    [] op \in {OpLui, OpAuipc} -> 3 [] op = OpBranch -> 4
    [] op \in {OpJal, OpJalr} -> 5  [] op = OpLoad -> 6 [] op = OpStore -> 7
    [] op = OpFence -> 8 [] IsCsrOp(w) -> 9 [] w = WMret -> 10
    [] op = OpSystem -> 11 [] OTHER -> 12
Counting == IOEnv.COUNT = "1"
Count(cls, o) == IF Counting THEN LET i == cls * 6 + o + 1 IN TLCSet(i, TLCGet(i) + 1) ELSE TRUE
ASSUME \A i \in 1..78 : TLCSet(i, 0)
Covered == Counting => PrintT(<<"COV", [i \in 1..78 |-> TLCGet(i)]>>)
Advance == l' = l + 1 /\ UNCHANGED seg
Idle == UNCHANGED <<pc, x, c, ph, tm>>

(* The interrupt decision.  An instruction is decoded in the clock after    *)
(* its fetch was acknowledged; CSR instructions take a second clock.        *)
Decisions(e) ==
  LET w == EvDat(e) IN
  IF ~IntEnabled(c) THEN {0}
  ELSE IF e[10] = 1 THEN {1}
  ELSE IF IsCsrOp(w) THEN {0, e[11]} ELSE {0}

ReadsMip(w) == IsCsrOp(w) /\ F12(w) = MIP
MipLevels(e) == IF ReadsMip(EvDat(e)) THEN e[12]..e[13] ELSE {0}

FetchOutcome(w, d, r) == IF d = 1 THEN 2 ELSE IF r.t = "trap" THEN 1 ELSE 0
StepFetch(e) ==
  CASE e[1] \notin {0, 9} -> Bad("fetch.kind", pc)
    [] EvAdr(e) # pc -> Bad("fetch.adr", pc)
    [] e[4] # 15 -> Bad("fetch.sel", <<0, 15>>)
    [] CheckTiming /\ Gap(e) > tm -> Bad("fetch.late", <<0, tm>>)
    [] e[1] = 9 -> Advance /\ Idle /\ Log(5)
    [] OTHER -> LET w == EvDat(e) IN
                \E d \in Decisions(e), m \in MipLevels(e) :
                  LET r == Exec(w, pc, x, c, m) IN
                  /\ Fetch(w, d, m)
                  /\ tm' = IF d = 1 THEN MaxGapTrap(w) ELSE MaxGap(w, r, x)
                  /\ Log(FetchOutcome(w, d, r))
                  /\ (Counting => Count(Class(w), FetchOutcome(w, d, r)))
                  /\ Advance

StepLoad(e) ==
  CASE e[1] \notin {0, 9} -> Bad("load.kind", BusAdr)
    [] EvAdr(e) # BusAdr -> Bad("load.adr", BusAdr)
    [] e[4] # BusSel -> Bad("load.sel", <<0, BusSel>>)
    [] CheckTiming /\ Gap(e) > tm -> Bad("load.late", <<0, tm>>)
    [] e[1] = 9 -> Advance /\ Idle /\ Log(5)
    [] OTHER -> Load(EvDat(e)) /\ tm' = MaxGapAfterData(Gap(e), "L") /\ Advance /\ Log(4) /\ Count(6, 4)

StepStore(e) ==
  CASE e[1] # 1 -> Bad("store.kind", BusAdr)
    [] EvAdr(e) # BusAdr -> Bad("store.adr", BusAdr)
    [] e[4] # BusSel -> Bad("store.sel", <<0, BusSel>>)
    [] ~LanesOk(ph[2], ph[3], ph[4], EvDat(e)) -> Bad("store.dat", ph[4])
    [] CheckTiming /\ Gap(e) > tm -> Bad("store.late", <<0, tm>>)
    [] OTHER -> Store /\ tm' = MaxGapAfterData(Gap(e), "S") /\ Advance /\ Log(4) /\ Count(7, 4)

(* Reset leaves registers and memory-backed CSRs undefined for software.    *)
StepReset ==
  /\ \E p \in {0, 1} : ResetTo([i \in 1..31 |-> Unknown], p, Unknown, Unknown, Unknown)
  /\ tm' = 1000 /\ Log(3) /\ Advance /\ Count(0, 3)

TraceNext ==
  /\ l > 0
  /\ IF l > Len(Trace[seg])
     THEN PrintT(<<"OK", seg, l - 1>>) /\ Stop
     ELSE LET e == Trace[seg][l] IN
          CASE e[1] = 2 -> StepReset
            [] e[1] = 8 -> Bad("silence", BusAdr)
            [] e[1] = 7 -> Bad("dropped", BusAdr)
            [] ph[1] = "F" -> StepFetch(e)
            [] ph[1] = "L" -> StepLoad(e)
            [] OTHER -> StepStore(e)

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* design invariants, evaluated at every step of every recorded execution   *)
TypeOK == /\ IsWord(pc) /\ pc[2] % 4 = 0
          /\ c.mie \in {0, 1} /\ c.mpie \in {0, 1} /\ c.meie \in {0, 1}
          /\ c.mtvec[2] % 4 = 0 /\ c.mepc[2] % 4 = 0
          /\ ph[1] \in {"F", "L", "S"}
=============================================================================
