------------------------------- MODULE MCSoc -------------------------------
(* What the peripherals of SocPeriph promise to software, for every schedule *)
(* of requests by a master that obeys the handshake: small instances.        *)
EXTENDS SocPeriph, TLC

CONSTANTS Device, W, D, B,
          Peer    \* clocks per bit of the far end; 0: the line is looped back

VARIABLES s, r, g
vars == <<s, r, g>>

Idle == [stb |-> 0, we |-> 0, sel |-> 0, adr |-> 0, dat |-> <<0, 0, 0, 0>>]
Zeros == <<0, 0, 0, 0>>
Request(we, sel, adr, dat) == [stb |-> 1, we |-> we, sel |-> sel, adr |-> adr, dat |-> dat]
Byte(v) == <<v, 0, 0, 0>>
(* the last clock of a request *)
Done == r.stb = 1 /\ s.ack = 1
DoneRead == Done /\ r.we = 0

Requests ==
  CASE Device = "mem" -> {Request(0, 15, a, Zeros) : a \in 0..1}
                         \cup {Request(1, e, a, d) : e \in 0..15, a \in 0..1, d \in {Zeros, <<1, 1, 1, 1>>, <<1, 0, 1, 0>>}}
    [] Device = "timer" -> {Request(w, e, 0, Zeros) : w \in 0..1, e \in 0..1}
    [] OTHER -> {Request(0, e, a, Zeros) : e \in 0..1, a \in 0..1}
                \cup {Request(1, 1, 0, Byte(v)) : v \in IF Peer = 0 THEN 0..(2 ^ B - 1) ELSE {}}

(* The far end of the serial line sends any byte at any time, but not more  *)
(* than one before the last has arrived.                                     *)
Pin == IF Device # "serial" THEN 1 ELSE IF Peer = 0 THEN TxPin(s.tx) ELSE TxPin(g.peer)
(* Software that serves the receiver first and does not overrun it.         *)
May(q) == Device = "serial" =>
            /\ (s.rx.rdy = 1 => q.stb = 1 /\ q.we = 0 /\ q.adr = 0 /\ q.sel = 1)
            /\ (q.stb = 1 /\ q.we = 0 /\ q.adr = 0 /\ q.sel = 1 => s.rx.rdy = 1)
            /\ (q.stb = 1 /\ q.we = 1 => TxReady(s.tx) = 1 /\ g.sent = << >>)

Host == IF Done THEN r' = Idle
        ELSE IF r.stb = 1 THEN r' = r
        ELSE \E q \in {Idle} \cup Requests : May(q) /\ r' = q

GhostInit ==
  CASE Device = "mem" -> <<Zeros, Zeros>>
    [] Device = "timer" -> 0
    [] OTHER -> [peer |-> TxInit, sent |-> << >>, rx |-> 0, tx |-> 1, taken |-> 0]

Init == r = Idle /\ g = GhostInit
        /\ s = CASE Device = "mem" -> MemInit(<<Zeros, Zeros>>) [] Device = "timer" -> TimerInit [] OTHER -> SerialInit

Mem == /\ s' = MemNext(s, r)
       /\ g' = IF Done /\ r.we = 1 THEN [g EXCEPT ![r.adr + 1] = Merge(@, r)] ELSE g

(* g: a tick that software has not been told about (nor missed by not       *)
(* asking for half a turn of the counter)                                    *)
Timer == /\ s' = TimerNext(s, r, W)
         /\ g' = CASE TimerIrq(s', W) = 1 /\ TimerIrq(s, W) = 0 -> 1
                   [] DoneRead /\ Sel0(r) /\ s.dat = 1 -> 0
                   [] TimerIrq(s, W) = 1 /\ TimerIrq(s', W) = 0 /\ ~(First(s, r) /\ Sel0(r) /\ r.we = 0) -> 0
                   [] OTHER -> g

Ask == First(s, r) /\ Sel0(r) /\ r.we = 0 /\ r.adr = 1
Arrived == s.rx.rdy = 0 /\ s'.rx.rdy = 1
Freed == TxReady(s.tx) = 0 /\ TxReady(s'.tx) = 1
Begun == TxReady(s.tx) = 1 /\ TxReady(s'.tx) = 0
Serial ==
  /\ s' = SerialNext(s, r, Pin, D, B)
  /\ \E go \in BOOLEAN, v \in 0..(2 ^ B - 1) :
       /\ (~go => v = 0)
       /\ (go => Peer > 0 /\ g.peer.bits = << >> /\ g.sent = << >> /\ s.rx.rdy = 0)
       /\ g' = [peer  |-> IF Peer > 0 THEN TxNext(g.peer, go, v, Peer, B) ELSE TxInit,
                sent  |-> IF Arrived THEN Tail(g.sent)
                          ELSE IF go THEN <<v>>
                          ELSE IF Peer = 0 /\ Begun THEN <<r.dat[1]>> ELSE g.sent,
                rx    |-> IF Arrived THEN 1 ELSE IF Ask /\ s.irx = 1 /\ ~(s.rx.rdy = 1 /\ s.prx = 0) THEN 0 ELSE g.rx,
                tx    |-> IF Freed THEN 1 ELSE IF Ask /\ s.itx = 1 /\ ~(TxReady(s.tx) = 1 /\ s.ptx = 0) THEN 0 ELSE g.tx,
                taken |-> IF Ask THEN g.rx * s.irx + 2 * (g.tx * s.itx) ELSE g.taken]

Next == Host /\ CASE Device = "mem" -> Mem [] Device = "timer" -> Timer [] OTHER -> Serial
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Acknowledged exactly once, in the second clock.                          *)
Handshake == s.ack = 1 => r.stb = 1

(* What was acknowledged as written is read back; nothing else changes.     *)
Memory == Device = "mem" => /\ (r.stb = 0 => s.m = g)
                            /\ (DoneRead => s.dat = g[r.adr + 1])

(* Every tick is told to software exactly once, or is still pending.        *)
TickKept == Device = "timer" =>
              (g = 1 <=> TimerIrq(s, W) = 1 \/ (DoneRead /\ Bit(r.sel, 0) = 1 /\ s.dat = 1))

(* A byte that has come in whole is the byte that was sent.                 *)
BytesKept == Device = "serial" => /\ (s.rx.rdy = 1 /\ s.prx = 0 => s.rx.ok)
                                  /\ (s.rx.left = 1 /\ s.rx.ph = 0 =>
                                        g.sent # << >> /\ Value(SubSeq(s.rx.got, 2, B + 1)) = g.sent[1])
ReadIsByte == Device = "serial" => (DoneRead /\ r.adr = 0 /\ Sel0(r) => s.known)
(* Every cause is told to software once, or still pending.                  *)
CausesKept == Device = "serial" =>
  /\ (g.rx = 1 <=> s.irx = 1 \/ (s.rx.rdy = 1 /\ s.prx = 0))
  /\ (g.tx = 1 <=> s.itx = 1 \/ (TxReady(s.tx) = 1 /\ s.ptx = 0))
  /\ (DoneRead /\ Sel0(r) /\ r.adr = 1 => s.dat = g.taken)
(* Between transmissions the line rests high.                               *)
LineRests == Device = "serial" => (TxReady(s.tx) = 1 => TxPin(s.tx) = 1)
=============================================================================
