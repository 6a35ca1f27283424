SPECIFICATION Spec
CONSTANTS
  OptSet <- MCOptSet
  Fams <- MCFams
INVARIANTS Delivers Reversible EmptyIffEq IsMinimal IsPreferred NeverOnNP WellFormed OrderLaws
CHECK_DEADLOCK FALSE
