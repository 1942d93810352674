---------------------------- MODULE WishboneTrace ----------------------------
(* Trace validation of every clock of a recorded execution against          *)
(* WishboneBus.  Events: [rst, cyc, stb, we, adrH, adrL, sel, datH, datL,   *)
(* ack], preceded in each segment by nothing.                               *)
EXTENDS WishboneBus, Sequences, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES seg, l
tvars == <<st, req, seg, l>>

TraceInit == seg \in 1..Len(Trace) /\ l = 1 /\ BusInit

Q(e) == <<e[5], e[6], e[7], e[4], e[8], e[9]>>
Covered == PrintT(<<"COV", [i \in 1..8 |-> TLCGet(i)]>>)
ASSUME \A i \in 1..8 : TLCSet(i, 0)
Hit(i) == TLCSet(i, TLCGet(i) + 1)
Count(e) == IF IOEnv.COUNT = "1"
            THEN Hit(CASE e[1] = 1 /\ st = "busy" -> 1 [] e[1] = 1 /\ e[2] = 1 -> 2 [] e[1] = 1 -> 3
                       [] e[2] = 0 /\ e[10] = 1 -> 4 [] e[2] = 0 -> 5
                       [] e[10] = 0 -> 6 [] e[4] = 1 -> 7 [] OTHER -> 8)
            ELSE TRUE
TraceNext ==
  /\ l > 0
  /\ IF l > Len(Trace[seg])
     THEN PrintT(<<"OK", seg, l - 1>>) /\ l' = 0 /\ UNCHANGED <<st, req, seg>>
     ELSE LET e == Trace[seg][l]
              v == Legal(e[1], e[2], e[3], Q(e), e[10]) IN
          IF v # ""
          THEN PrintT(<<"BAD", seg, l, v, st, req>>) /\ l' = 0 /\ UNCHANGED <<st, req, seg>>
          ELSE Clock(e[1], e[2], e[3], Q(e), e[10]) /\ Count(e) /\ l' = l + 1 /\ UNCHANGED seg

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
