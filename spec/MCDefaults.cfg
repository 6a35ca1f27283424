SPECIFICATION Spec
INVARIANTS Same OneCase
CHECK_DEADLOCK FALSE
