----------------------------- MODULE UcodeTrace -----------------------------
(* Clock-by-clock validation of the real core, loaded with any microprogram, *)
(* against Ucode.  A segment is [rom, clk]; each clock                      *)
(*  [rst, irq, ack, datH, datL, cyc, stb, we, adrH, adrL, sel, dwH, dwL]    *)
EXTENDS Ucode, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)

VARIABLES seg, l, u
tvars == <<seg, l, u>>

TraceInit == seg \in 1..Len(Trace) /\ l = 1 /\ u = PowerUp

Word(s, at, k) == IF k = 1 THEN Idle ELSE Trace[s].rom[at + 1]
In(e) == [rst |-> e[1], irq |-> e[2], ack |-> e[3], dat |-> <<e[4], e[5]>>]

LaneEq(p, q, i) == ByteOf(p, i) = ByteOf(q, i)
(* "" or the clause that fails                                              *)
Wrong(w, e) ==
  LET req == IF Requests(u, w) THEN 1 ELSE 0
      sel == BusSelOf(u, w)
      adr == BusAdrOf(u, w)
      dw == <<e[12], e[13]>>
      lanes == sel & u.wsel
  IN CASE e[6] # req -> "cyc"
       [] e[7] # req -> "stb"
       [] req = 0 -> ""
       [] e[8] # w[FWe] -> "we"
       [] Known(adr) /\ <<e[9], e[10]>> # adr -> "adr"
       [] sel # -1 /\ e[11] # sel -> "sel"
       [] w[FWe] = 1 /\ sel # -1 /\ Known(u.wdat) /\ \E i \in 0..3 : (lanes \div P2(i)) % 2 = 1 /\ ~LaneEq(dw, u.wdat, i) -> "dat"
       [] OTHER -> ""

(* how much of what the bus showed was actually promised                     *)
ASSUME \A i \in 1..8 : TLCSet(i, 0)
Bump(i) == TLCSet(i, TLCGet(i) + 1)
Count(w, e) == /\ Bump(1)
               /\ (Requests(u, w) => /\ Bump(2)
                                     /\ (Known(BusAdrOf(u, w)) => Bump(3))
                                     /\ (w[FWe] = 1 => Bump(4))
                                     /\ ((w[FWe] = 1 /\ Known(u.wdat) /\ BusSelOf(u, w) # -1 /\ (BusSelOf(u, w) & u.wsel) # 0) => Bump(5)))
               /\ (w[FJmp] = JMap => Bump(6))
               /\ (w[FExc] \in {EDec, EJal, EStore, ELoad} => Bump(7))
               /\ (In(e).rst = 1 => Bump(8))
Covered == PrintT(<<"COV", [i \in 1..8 |-> TLCGet(i)]>>)

Stop == l' = 0 /\ UNCHANGED <<seg, u>>
TraceNext ==
  /\ l > 0
  /\ IF l > Len(Trace[seg].clk) THEN PrintT(<<"OK", seg, l - 1>>) /\ Stop
     ELSE IF u.at = -1 THEN PrintT(<<"OK", seg, l - 1>>) /\ Stop
     ELSE LET e == Trace[seg].clk[l]  w == Word(seg, u.at, l)  bad == Wrong(w, e) IN
          IF bad # ""
          THEN PrintT(<<"BAD", seg, l, bad, u.at, w, u.pc, u.adr, u.a, u.b, u.o, u.wdat, u.insn>>) /\ Stop
          ELSE /\ Count(w, e)
               /\ l' = l + 1 /\ UNCHANGED seg
               /\ u' \in After(u, w, In(e))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
