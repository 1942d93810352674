SPECIFICATION Spec
CHECK_DEADLOCK TRUE
INVARIANTS Agree Stays InService
PROPERTY Live
