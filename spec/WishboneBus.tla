----------------------------- MODULE WishboneBus -----------------------------
(* The clock-by-clock contract of Sentinel's bus: a Wishbone Classic master *)
(* that issues single transfers.  One step per clock.                       *)
(*                                                                          *)
(*   cyc = stb always.                                                      *)
(*   A request, once raised, is held with the same address, select, write-  *)
(*   enable and (on the selected lanes) write data until its ACK.           *)
(*   After ACK both lines are low for at least one clock.                   *)
(*   Select names one aligned byte, halfword or the whole word.             *)
(*   No request in the second and later clocks of a reset, nor in the clock *)
(*   after it.  (In a reset's first clock the outputs still come from the   *)
(*   state before it.)                                                      *)
EXTENDS Integers, Bitwise

VARIABLES
  st,    \* "idle" | "busy" | "rest" (the clock after an ACK) | "reset"
  req    \* what is being requested: <<adrH, adrL, sel, we, datH, datL>>

bvars == <<st, req>>

NoReq == <<0, 0, 0, 0, 0, 0>>
Sels == {1, 2, 4, 8, 3, 12, 15}

Lane(sel, h) == CASE h = 1 -> (IF (sel \div 8) % 2 = 1 THEN 65280 ELSE 0) + (IF (sel \div 4) % 2 = 1 THEN 255 ELSE 0)
                  [] OTHER -> (IF (sel \div 2) % 2 = 1 THEN 65280 ELSE 0) + (IF sel % 2 = 1 THEN 255 ELSE 0)
(* what of a request must not change: write data only on selected lanes     *)
Key(q) == IF q[4] = 1 THEN <<q[1], q[2], q[3], 1, q[5] & Lane(q[3], 1), q[6] & Lane(q[3], 2)>>
          ELSE <<q[1], q[2], q[3], 0, 0, 0>>

(* one clock: reset level, the two handshake lines, the request lines, ACK  *)
Legal(rst, cyc, stb, q, ack) ==
  CASE cyc # stb -> "cyc and stb differ"
    [] st = "reset" /\ cyc = 1 -> "request during reset"
    [] st = "rest" /\ cyc = 1 -> "request not dropped after ack"
    [] cyc = 1 /\ q[3] \notin Sels -> "illegal select"
    [] cyc = 1 /\ q[2] % 4 # 0 -> "unaligned address"
    [] st = "busy" /\ cyc = 0 -> "request dropped before ack"
    [] st = "busy" /\ Key(q) # req -> "request changed before ack"
    [] OTHER -> ""

Clock(rst, cyc, stb, q, ack) ==
  /\ st' = CASE rst = 1 -> "reset"
             [] cyc = 0 -> "idle"
             [] ack = 1 -> "rest"
             [] OTHER -> "busy"
  /\ req' = IF rst = 0 /\ cyc = 1 /\ ack = 0 THEN Key(q) ELSE NoReq

BusInit == st = "reset" /\ req = NoReq

BusTypeOK == /\ st \in {"idle", "busy", "rest", "reset"}
             /\ st = "busy" <=> req[3] # 0
=============================================================================
