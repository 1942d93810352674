SPECIFICATION RvfiSpec
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
CONSTANT CheckTiming = FALSE
POSTCONDITION Covered
