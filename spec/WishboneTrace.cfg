SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
INVARIANT BusTypeOK
POSTCONDITION Covered
