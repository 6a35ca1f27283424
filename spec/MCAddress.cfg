SPECIFICATION Spec
INVARIANTS Denotes Siblings Lossless
CHECK_DEADLOCK FALSE
