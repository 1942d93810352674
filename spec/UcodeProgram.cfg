SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Verdict Disjoint Complete Emitted
PROPERTIES Monotone Stable
