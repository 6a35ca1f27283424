SPECIFICATION Spec
INVARIANTS Proper Leads Emit
CHECK_DEADLOCK FALSE
