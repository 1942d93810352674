----------------------------- MODULE MCWishbone ------------------------------
(* WishboneBus closed with a master that does anything the contract allows  *)
(* and a slave that answers whenever it likes: the contract is satisfiable, *)
(* never blocks the master, and gives exactly one ACK per request.          *)
EXTENDS WishboneBus

VARIABLES reqs, acks, lastcyc
mcvars == <<st, req, reqs, acks, lastcyc>>

Reqs == {<<0, a, s, w, 0, d>> : a \in {0, 4}, s \in {1, 12, 15}, w \in {0, 1}, d \in {0, 255, 256}}

MCInit == BusInit /\ reqs = 0 /\ acks = 0 /\ lastcyc = 0

MCNext == \E rst \in {0, 1}, cyc \in {0, 1}, q \in Reqs, ack \in {0, 1} :
  /\ Legal(rst, cyc, cyc, q, ack) = ""
  /\ cyc = 0 => q = <<0, 0, 1, 0, 0, 0>>
  /\ Clock(rst, cyc, cyc, q, ack)
  /\ reqs' = IF rst = 1 THEN 0 ELSE IF cyc = 1 /\ st # "busy" THEN (reqs + 1) % 4 ELSE reqs
  /\ acks' = IF rst = 1 THEN 0 ELSE IF cyc = 1 /\ ack = 1 THEN (acks + 1) % 4 ELSE acks
  /\ lastcyc' = cyc

MCSpec == MCInit /\ [][MCNext]_mcvars

OneAckPerRequest == (reqs - acks) % 4 = IF st = "busy" THEN 1 ELSE 0
LowAfterAck == [][st = "rest" => lastcyc' = 0]_mcvars
HeldUntilAck == [][st = "busy" => lastcyc' = 1]_mcvars
QuietInReset == [][st = "reset" => lastcyc' = 0]_mcvars
(* whatever happened, the master is never stuck *)
NeverStuck == \/ \E q \in Reqs : Legal(0, 1, 1, q, 1) = ""
              \/ Legal(0, 0, 0, <<0, 0, 1, 0, 0, 0>>, 0) = ""
=============================================================================
