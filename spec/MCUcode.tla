------------------------------ MODULE MCUcode ------------------------------
(* Does a microprogram make the microcode machine (Ucode) the hart          *)
(* (Sentinel)?  IOEnv.ROM holds the microprogram, IOEnv.FOCUS picks the     *)
(* instruction words and the states of the hart they meet (MCSentinel).     *)
(*                                                                          *)
(* Every run starts in the clock after an instruction was fetched, with     *)
(* registers, CSRs and pc as the focus says and everything else in the      *)
(* machine unknown (U); the interrupt line does anything in any clock, the  *)
(* slave acknowledges after any number of wait states.  It ends in the      *)
(* clock after the next instruction was fetched, where the machine must     *)
(* again hold a state of the hart, and nothing else that matters: so what   *)
(* holds for one instruction holds for programs.  FOCUS "C01" starts        *)
(* instead in the first clock after a reset, wherever it struck.            *)
EXTENDS MCSentinel, Json, SequencesExt

M == INSTANCE Ucode

Rom == JsonDeserialize(IOEnv.ROM)
(* which part of the instruction words: <<n, of>>                           *)
Slice == atoi(IOEnv.SLICE)
Of == atoi(IOEnv.OF)
Seed == atoi(IOEnv.SEED)

VARIABLES
  u,     \* the microcode machine
  q      \* what has happened since the fetch
uvars == <<pc, x, c, ph, ev, n, u, q>>

Resetting == Focus = "C01"
H0 == [pc |-> pc, x |-> x, c |-> c, ph |-> ph]
(* the instruction fetched next: what matters is the register it reads      *)
Nexts == {I(5, r, 0, 4, 19) : r \in {2, IF Resetting THEN 0 ELSE Rd(q.w)}}

Decoded(w) == [M!PowerUp EXCEPT !.at = 1, !.guard = 0, !.o = M!U, !.age = 1, !.insn = w,
                 !.gp = Reg(x, Rs1(w)), !.gpa = Rs1(w),
                 !.x = [i \in 1..32 |-> IF i = 1 THEN Zero ELSE x[i - 1]],
                 !.bram = [i \in {5, 8, 9, 10} |-> CASE i = 5 -> c.mtvec [] i = 8 -> c.mscratch [] i = 9 -> c.mepc [] OTHER -> c.mcause],
                 !.mie = c.mie, !.mpie = c.mpie, !.meie = c.meie, !.pc = pc]

(* k: clocks since the fetch was acknowledged; d1 d2: the interrupt line in *)
(* the first two; m: its levels since; gap: clocks without a request;       *)
(* req: a request is waiting; hs: the states the hart may be in; late:      *)
(* most clocks the request may stay away                                    *)
Fresh(w, hs) == [st |-> "run", w |-> w, k |-> 1, d1 |-> 0, d2 |-> 0, m |-> {}, gap |-> 0, req |-> 0, hs |-> hs, late |-> 80]

Hash(w) == (((w[1] * 7919) % 65521) + ((w[2] * 8191) % 65521)) % 9973
Mine(w) == (Hash(w) + Seed) % Of = Slice
(* where interrupts do not matter, their state still must not change; two   *)
(* states in which an entry or a return would show, one per word            *)
UQuiet == {Csrs(1, 0, 0), Csrs(0, 1, 1)}
CsrsOf(w) == c.mie = Hash(w) % 2
UInit ==
  /\ IF Resetting
     THEN /\ pc = Zero /\ x = Regs(Zero, Zero) /\ c = Csrs(0, 0, 0) /\ ph = FetchPhase /\ ev = <<>> /\ n = 0
          /\ \E at \in 0..255 : u = [M!PowerUp EXCEPT !.at = at] /\ q = Fresh(<<0, 0>>, {})
     ELSE /\ Init /\ ev.part = 0
          /\ \E w \in Words : Mine(w) /\ ((Loose \/ Focus = "C13") \/ CsrsOf(w)) /\ u = Decoded(w) /\ q = Fresh(w, {})

ReadsMip(w) == IsCsrOp(w) /\ F12(w) = MIP
(* what the hart may have become when the next request shows up             *)
Outcomes ==
  IF Resetting THEN {[pc |-> Zero, x |-> x, c |-> CsrInit(0, Zero, Zero, Zero), ph |-> FetchPhase]}
  ELSE IF q.hs # {} THEN q.hs
  ELSE LET ds == IF ~IntEnabled(c) THEN {0} ELSE IF q.d1 = 1 THEN {1} ELSE IF IsCsrOp(q.w) THEN {0, q.d2} ELSE {0}
           ms == IF ReadsMip(q.w) THEN q.m ELSE {0}
       IN {AfterFetch(H0, q.w, d, mm) : d \in ds, mm \in ms}
Late(h) == IF Resetting THEN 20
           ELSE IF h.c.mcause = ExtInterrupt THEN MaxGapTrap(q.w)
           ELSE MaxGap(q.w, Exec(q.w, pc, x, c, 0), x)

(* the bus shows what the hart owes                                         *)
Adr(h) == IF h.ph[1] = "F" THEN h.pc ELSE AlignDown4(h.ph[3])
Sel(h) == IF h.ph[1] = "F" THEN 15 ELSE SelOf(h.ph[2], h.ph[3])
Lane(v, i) == ByteOf(v, i)
Shown(w, h) ==
  /\ M!BusAdrOf(u, w) = Adr(h) /\ M!BusSelOf(u, w) = Sel(h)
  /\ w[M!FWe] = (IF h.ph[1] = "S" THEN 1 ELSE 0)
  /\ (w[M!FIf] = 1) = (h.ph[1] = "F")
  /\ h.ph[1] = "S" => /\ (u.wsel & Sel(h)) = Sel(h) /\ M!Known(u.wdat)
                      /\ LanesOk(h.ph[2], h.ph[3], h.ph[4], u.wdat)

(* the machine holds the hart h, and is about to decode w                   *)
HoldsHart(v, h, w) ==
  /\ v.at = 1 /\ v.guard = 0 /\ v.age = 1 /\ v.insn = w /\ v.gpa = Rs1(w) /\ v.x[1] = Zero
  /\ v.pc = h.pc /\ v.mie = h.c.mie /\ v.meie = h.c.meie /\ v.bram[10] = h.c.mcause
  /\ IF Resetting THEN Rs1(w) = 0 => v.gp = Zero
     ELSE /\ \A i \in 1..31 : v.x[i + 1] = h.x[i]
          /\ v.gp = Reg(h.x, Rs1(w)) /\ v.mpie = h.c.mpie
          /\ v.bram[5] = h.c.mtvec /\ v.bram[8] = h.c.mscratch /\ v.bram[9] = h.c.mepc

ASSUME TLCSet(1, {}) /\ TLCSet(2, 0)
Done == PrintT(<<"COV", TLCGet(2), SetToSeq(TLCGet(1))>>)

Keep == UNCHANGED <<pc, x, c, ph, ev, n>>
Halt == /\ q' = [q EXCEPT !.st = "done"] /\ UNCHANGED u /\ Keep
(* one of the states the hart may be in, for the report                      *)
Tell(hs) == LET h == CHOOSE h \in hs : TRUE IN
  <<h.pc, h.x, <<h.c.mie, h.c.mpie, h.c.meie, h.c.mtvec, h.c.mscratch, h.c.mepc, h.c.mcause>>, h.ph>>
Wrong(what, h) == PrintT(<<"BAD", what, q.w, pc, u.at, q.k, h>>) /\ Halt

Clock(w, irq, ack, dat, hs, st) ==
  LET in == [rst |-> 0, irq |-> irq, ack |-> ack, dat |-> dat]
      req == M!Requests(u, w)
  IN \E v \in M!After(u, w, in) :
       /\ u' = v
       /\ q' = [q EXCEPT !.st = st, !.hs = hs, !.k = IF q.k < 3 THEN q.k + 1 ELSE 3,
                         !.d1 = IF q.k = 1 /\ IntEnabled(c) THEN irq ELSE @, !.d2 = IF q.k = 2 /\ IntEnabled(c) THEN irq ELSE @,
                         !.m = IF q.k > 2 /\ hs = {} /\ ReadsMip(q.w) THEN @ \cup {irq} ELSE @,
                         !.gap = IF ack = 1 THEN 0 ELSE IF req THEN @ ELSE @ + 1,
                         !.req = IF req /\ ack = 0 THEN 1 ELSE 0,
                         !.late = IF ack = 1 THEN MaxGapAfterData(q.gap, CHOOSE t \in {h.ph[1] : h \in q.hs} : TRUE) ELSE @]
       /\ Keep

Run ==
  /\ q.st = "run"
  /\ IF u.at = -1 THEN Wrong("lost", u.insn)
     ELSE LET w == Rom[u.at + 1]  req == M!Requests(u, w) IN
       /\ TLCSet(1, TLCGet(1) \cup {u.at})
       /\ IF ~req
          THEN IF q.gap > 80 THEN Wrong("silence", q.gap)
               ELSE IF q.req = 1 THEN Wrong("request dropped", q.gap)
               ELSE \E irq \in {0, 1} : Clock(w, irq, 0, <<4660, 22136>>, q.hs, "run")
          ELSE IF q.req = 0
          THEN \* the request begins: no acknowledgement yet
               LET hs == {h \in Outcomes : Shown(w, h)} IN
               IF hs = {} THEN Wrong("request", <<M!BusAdrOf(u, w), M!BusSelOf(u, w), w[M!FWe], u.wdat, Tell(Outcomes)>>)
               ELSE IF \A h \in hs : q.gap > (IF q.hs = {} THEN Late(h) ELSE q.late) THEN Wrong("late", q.gap)
               ELSE \E irq \in {0, 1} : Clock(w, irq, 0, <<4660, 22136>>, hs, "run")
          ELSE LET hs == {h \in q.hs : Shown(w, h)} IN
               IF hs = {} THEN Wrong("request changed", <<M!BusAdrOf(u, w), M!BusSelOf(u, w), w[M!FWe], u.wdat, Tell(q.hs)>>)
               ELSE \/ \E irq \in {0, 1} : Clock(w, irq, 0, <<43981, 4660>>, hs, "run")
                    \/ \E h \in hs : h.ph[1] = "L" /\ \E d \in LoadData : Clock(w, 0, 1, d, {AfterLoad(h, d)}, "run")
                    \/ \E h \in hs : h.ph[1] = "S" /\ Clock(w, 0, 1, <<1, 2>>, {AfterStore(h)}, "run")
                    \/ /\ \E h \in hs : h.ph[1] = "F"
                       /\ \E d \in Nexts, irq \in {0, 1} : Clock(w, irq, 1, d, hs, "fetched")
Check ==
  /\ q.st = "fetched"
  /\ IF \E h \in q.hs : HoldsHart(u, h, u.insn) THEN TLCSet(2, TLCGet(2) + 1) /\ Halt
     ELSE Wrong("state", <<u.at, u.age, u.gp, u.pc, u.x, <<u.mie, u.mpie, u.meie, u.bram[5], u.bram[8], u.bram[9], u.bram[10]>>, Tell(q.hs)>>)
Next2 == Run \/ Check
USpec == UInit /\ [][Next2]_uvars
=============================================================================
