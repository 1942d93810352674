SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW NoGhost
INVARIANTS Types Saved
PROPERTIES Undoes NoNest Lands Prompt
