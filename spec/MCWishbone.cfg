SPECIFICATION MCSpec
INVARIANTS BusTypeOK OneAckPerRequest NeverStuck
PROPERTIES LowAfterAck HeldUntilAck QuietInReset
