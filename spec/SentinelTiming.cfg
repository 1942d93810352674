SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
CONSTANT CheckTiming = TRUE
POSTCONDITION Covered
