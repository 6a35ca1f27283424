SPECIFICATION Spec
INVARIANTS Sym Self WholeOk IncludedOk
CHECK_DEADLOCK FALSE
