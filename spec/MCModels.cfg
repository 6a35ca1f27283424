SPECIFICATION Spec
INVARIANTS Exact EmptyIff Mirror Partition NoNoise
CHECK_DEADLOCK FALSE
