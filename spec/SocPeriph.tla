----------------------------- MODULE SocPeriph -----------------------------
(* The Wishbone peripherals of the example SoC (examples/attosoc.py): RAM,  *)
(* LEDs and GPIO, the 15-bit timer, the serial port.  One step is one       *)
(* clock.  A request r is [stb, we, sel, adr, dat]; dat and RAM words are   *)
(* sequences of four bytes, sel bit i enabling byte i + 1.                  *)
EXTENDS Integers, Sequences

Bit(n, i) == (n \div (2 ^ i)) % 2
Sel0(r) == r.stb = 1 /\ Bit(r.sel, 0) = 1
(* Every peripheral acknowledges in the second clock of a request.          *)
AckNext(s, r) == IF r.stb = 1 /\ s.ack = 0 THEN 1 ELSE 0
First(s, r) == r.stb = 1 /\ s.ack = 0

-----------------------------------------------------------------------------
(* RAM: a read returns, per byte, what was last written or the contents it  *)
(* was given; a write changes the selected bytes only.                      *)
Merge(old, r) == [i \in 1..4 |-> IF Bit(r.sel, i - 1) = 1 THEN r.dat[i] ELSE old[i]]
MemInit(init) == [ack |-> 0, dat |-> <<0, 0, 0, 0>>, m |-> init]
MemNext(s, r) ==
  [ack |-> AckNext(s, r),
   dat |-> IF r.stb = 1 /\ r.we = 0 THEN s.m[r.adr + 1] ELSE s.dat,
   m   |-> IF r.stb = 1 /\ r.we = 1 THEN [s.m EXCEPT ![r.adr + 1] = Merge(@, r)] ELSE s.m]

-----------------------------------------------------------------------------
(* LEDs (register 0, write only), GPIO pins (1: read the pins, write the    *)
(* output latch) and their direction (2).                                   *)
LedsInit == [ack |-> 0, dat |-> 0, leds |-> 0, o |-> 0, oe |-> 0]
LedsNext(s, r, pins) ==
  [ack  |-> AckNext(s, r),
   dat  |-> IF First(s, r) /\ Sel0(r) /\ r.we = 0 /\ r.adr % 4 = 1 THEN pins ELSE s.dat,
   leds |-> IF s.ack = 1 /\ Sel0(r) /\ r.we = 1 /\ r.adr % 4 = 0 THEN r.dat[1] ELSE s.leds,
   o    |-> IF First(s, r) /\ Sel0(r) /\ r.we = 1 /\ r.adr % 4 = 1 THEN r.dat[1] ELSE s.o,
   oe   |-> IF First(s, r) /\ Sel0(r) /\ r.we = 1 /\ r.adr % 4 = 2 THEN r.dat[1] ELSE s.oe]

-----------------------------------------------------------------------------
(* Timer: the interrupt line is bit W - 1 of a free-running W-bit counter;  *)
(* a read of its register returns the line and, if it was set, clears it.   *)
(* The value returned and the clearing belong together: a tick that comes   *)
(* once the value has been taken stays pending.                             *)
TimerInit == [ack |-> 0, dat |-> 0, p |-> 0]
TimerIrq(s, W) == Bit(s.p, W - 1)
TimerNext(s, r, W) ==
  LET take == First(s, r) /\ Sel0(r) /\ r.we = 0
      q == (s.p + 1) % (2 ^ W)
  IN [ack |-> AckNext(s, r),
      dat |-> IF take THEN TimerIrq(s, W) ELSE s.dat,
      p   |-> IF take /\ TimerIrq(s, W) = 1 THEN q % (2 ^ (W - 1)) ELSE q]

-----------------------------------------------------------------------------
(* Serial: bits are D clocks long, B data bits, least significant first,    *)
(* one start (0) and one stop bit (1).                                      *)
Bits(v, B) == [i \in 1..B |-> Bit(v, i - 1)]
Frame(v, B) == <<0>> \o Bits(v, B) \o <<1>>
RECURSIVE Value(_)
Value(b) == IF b = << >> THEN 0 ELSE b[1] + 2 * Value(Tail(b))

(* Transmitter: the bits still to go, the first of them on the pin.         *)
TxInit == [bits |-> << >>, ph |-> 0]
TxPin(t) == IF t.bits = << >> THEN 1 ELSE t.bits[1]
TxReady(t) == IF t.bits = << >> THEN 1 ELSE 0
TxNext(t, go, v, D, B) ==
  CASE t.bits = << >> -> IF go THEN [bits |-> Frame(v, B), ph |-> D - 1] ELSE t
    [] t.ph > 0       -> [t EXCEPT !.ph = @ - 1]
    [] OTHER          -> [bits |-> Tail(t.bits), ph |-> D - 1]

(* Receiver: a low pin starts a frame, if the byte before has been taken;   *)
(* bits are sampled half a bit later and then once per bit.  data stays     *)
(* until the next frame's first sample; ok says that it is whole.           *)
RxInit == [left |-> 0, ph |-> 0, got |-> << >>, data |-> 0, rdy |-> 0, ok |-> FALSE]
RxNext(x, pin, taken, D, B) ==
  IF x.left = 0
  THEN IF pin = 0 /\ (taken \/ x.rdy = 0)
       THEN [x EXCEPT !.left = B + 2, !.ph = D \div 2, !.got = << >>, !.rdy = 0]
       ELSE [x EXCEPT !.rdy = IF taken THEN 0 ELSE @]
  ELSE IF x.ph > 0 THEN [x EXCEPT !.ph = @ - 1]
  ELSE LET g == Append(x.got, pin) IN
       IF x.left = 1
       THEN [left |-> 0, ph |-> D - 1, got |-> << >>, data |-> Value(SubSeq(g, 2, B + 1)), rdy |-> 1, ok |-> TRUE]
       ELSE [x EXCEPT !.left = @ - 1, !.ph = D - 1, !.got = g, !.ok = FALSE]

(* The port: register 0 transmits and receives, register 1 holds the two    *)
(* interrupt causes (bit 0: a byte has come, bit 1: the transmitter has     *)
(* become free), cleared by being read.  Causes that arise while they are   *)
(* read stay set.                                                           *)
SerialInit == [ack |-> 0, dat |-> 0, known |-> TRUE, tx |-> TxInit, rx |-> RxInit,
               irx |-> 0, itx |-> 0, prx |-> 0, ptx |-> 0]
SerialIrq(s) == IF s.irx + s.itx > 0 THEN 1 ELSE 0
SerialNext(s, r, pin, D, B) ==
  LET data == Sel0(r) /\ r.adr % 2 = 0
      causes == First(s, r) /\ Sel0(r) /\ r.adr % 2 = 1 /\ r.we = 0
  IN [ack   |-> AckNext(s, r),
      dat   |-> IF data THEN s.rx.data ELSE IF causes THEN s.irx + 2 * s.itx ELSE s.dat,
      known |-> IF data THEN s.rx.ok ELSE IF causes THEN TRUE ELSE s.known,
      tx    |-> TxNext(s.tx, data /\ r.we = 1 /\ s.ack = 1, r.dat[1], D, B),
      rx    |-> RxNext(s.rx, pin, data /\ r.we = 0, D, B),
      irx   |-> IF s.rx.rdy = 1 /\ s.prx = 0 THEN 1 ELSE IF causes THEN 0 ELSE s.irx,
      itx   |-> IF TxReady(s.tx) = 1 /\ s.ptx = 0 THEN 1 ELSE IF causes THEN 0 ELSE s.itx,
      prx   |-> s.rx.rdy,
      ptx   |-> TxReady(s.tx)]
=============================================================================
