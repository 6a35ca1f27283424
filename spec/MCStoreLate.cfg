SPECIFICATION Spec
CONSTANTS
  Mods = {"a", "b", "c", "d"}
  Worlds <- TheWorlds
  Workers = {1, 2}
  MaxCrash = 2
  MaxRuns = 3
  MarkFirst = FALSE
INVARIANTS Trust Ready Fresh
PROPERTY Ends
CHECK_DEADLOCK FALSE
