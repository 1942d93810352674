SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Faithful Verdict Placement Symbols Emitted
