SPECIFICATION Spec
CONSTANTS
  Fams <- MCFams
INVARIANTS Arrives Stable DiffRight SameLaws
CHECK_DEADLOCK FALSE
