SPECIFICATION USpec
CONSTANT Quiet <- UQuiet
CHECK_DEADLOCK FALSE
POSTCONDITION Done
