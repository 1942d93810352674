------------------------------ MODULE SocTrace ------------------------------
(* Validation of recorded executions of the real peripherals, clock by      *)
(* clock, against SocPeriph.  Events:                                       *)
(* [clocks with these pins, rst, stb, we, sel, adr, dat_w (4 bytes), gpio,  *)
(*  rx, ack, dat_r (4 bytes), irq, tx, leds, gpio_o, gpio_oe];              *)
(* for the wiring of the whole SoC: [clocks, timer irq, serial irq, CPU irq] *)
EXTENDS SocPeriph, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES seg, l, st
vars == <<seg, l, st>>

Kind == Trace[seg].kind
Div == Trace[seg].div
Start(s) == CASE Trace[s].kind = "mem" -> MemInit(Trace[s].init)
              [] Trace[s].kind = "leds" -> LedsInit
              [] Trace[s].kind = "timer" -> TimerInit @@ [lost |-> FALSE]
              [] Trace[s].kind = "wire" -> 0
              [] OTHER -> SerialInit
Init == seg \in 1..Len(Trace) /\ l = 1 /\ st = Start(seg)

Req(e) == [stb |-> e[3], we |-> e[4], sel |-> e[5], adr |-> e[6], dat |-> SubSeq(e, 7, 10)]
Read(e) == e[3] = 1 /\ e[4] = 0 /\ e[13] = 1

Wrong(s, e) ==
  IF Kind = "wire" THEN (IF e[4] # (IF e[2] + e[3] > 0 THEN 1 ELSE 0) THEN "interrupt wiring" ELSE "") ELSE
  IF e[13] # s.ack THEN "ack" ELSE
  CASE Kind = "mem" -> IF Read(e) /\ SubSeq(e, 14, 17) # s.dat THEN "memory read" ELSE ""
    [] Kind = "leds" -> CASE e[20] # s.leds -> "leds"
                          [] e[21] # s.o -> "gpio output"
                          [] e[22] # s.oe -> "gpio direction"
                          [] Read(e) /\ e[5] % 2 = 1 /\ e[6] % 4 = 1 /\ e[14] # s.dat -> "gpio read"
                          [] OTHER -> ""
    [] Kind = "timer" -> CASE e[18] # TimerIrq(s, 15) -> "timer interrupt"
                           [] Read(e) /\ e[5] % 2 = 1 /\ e[14] # s.dat -> "timer read"
                           [] OTHER -> ""
    [] OTHER -> CASE e[18] # SerialIrq(s) -> "serial interrupt"
                  [] e[19] # TxPin(s.tx) -> "transmit pin"
                  [] Read(e) /\ e[5] % 2 = 1 /\ s.known /\ e[14] # s.dat ->
                       (IF e[6] % 2 = 1 THEN "interrupt causes" ELSE "received byte")
                  [] OTHER -> ""

(* A recorded finding (known-findings.txt): a tick that comes in the ACK    *)
(* clock of a read which returns 0 is cleared at the end of that clock      *)
(* (lost); the timer goes on without it.                                    *)
Loses(s, e) == /\ Kind = "timer" /\ e[2] = 0 /\ e[3] = 1 /\ e[4] = 0 /\ Sel0(Req(e))
               /\ s.ack = 1 /\ s.dat = 0 /\ TimerIrq(s, 15) = 1
Forgets(s, e) == Kind = "timer" /\ s.lost /\ TimerIrq(s, 15) = 1 /\ e[18] = 0
Seen(s, e) == IF Forgets(s, e) THEN [s EXCEPT !.p = @ % (2 ^ 14)] ELSE s

Step(s, e) ==
  IF Kind = "wire" THEN s ELSE
  IF e[2] = 1 THEN (IF Kind = "mem" THEN [s EXCEPT !.ack = 0] ELSE Start(seg))
  ELSE CASE Kind = "mem" -> MemNext(s, Req(e))
         [] Kind = "leds" -> LedsNext(s, Req(e), e[11])
         [] Kind = "timer" -> TimerNext(s, Req(e), 15) @@ [lost |-> Loses(s, e)]
         [] OTHER -> SerialNext(s, Req(e), e[12], Div, 8)

Hit(i) == TLCSet(i, TLCGet(i) + 1)
RECURSIVE Run(_, _, _)
Run(s0, e, n) == IF n = 0 THEN <<"", s0>>
                 ELSE LET s == Seen(s0, e)
                          w == Wrong(s, e)
                          k == IF Forgets(s0, e) THEN Hit(11) ELSE TRUE IN
                      IF k /\ w # "" THEN <<w, s>> ELSE Run(Step(s, e), e, n - 1)

Covered == PrintT(<<"COV", [i \in 1..11 |-> TLCGet(i)]>>)
ASSUME \A i \in 1..11 : TLCSet(i, 0)
Count(s, e) ==
  CASE Kind = "wire" -> TRUE
    [] e[2] = 1 -> Hit(1)
    [] e[13] = 0 -> TRUE
    [] Kind = "mem" -> Hit(2 + e[4])
    [] Kind = "leds" -> Hit(4 + e[4])
    [] Kind = "timer" -> Hit(6 + s.dat)
    [] OTHER -> Hit(IF e[6] % 2 = 1 THEN 8 ELSE 9 + e[4])

Next ==
  /\ l > 0
  /\ IF l > Len(Trace[seg].ev)
     THEN PrintT(<<"OK", seg, l - 1>>) /\ l' = 0 /\ UNCHANGED <<seg, st>>
     ELSE LET e == Trace[seg].ev[l]
              r == Run(st, e, e[1]) IN
          IF r[1] # ""
          THEN PrintT(<<"BAD", seg, l, r[1]>>) /\ l' = 0 /\ UNCHANGED <<seg, st>>
          ELSE l' = l + 1 /\ st' = r[2] /\ Count(st, e) /\ UNCHANGED seg

Spec == Init /\ [][Next]_vars
=============================================================================
