SPECIFICATION Spec
CONSTANTS
  Models = {"a", "b"}
  Paths = {"a1", "a2", "b1"}
  Owner <- Own
  MaxVer = 3
  Forget <- ForgetNone
INVARIANTS Current 
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
