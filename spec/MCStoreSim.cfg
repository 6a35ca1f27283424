SPECIFICATION SSpec
CONSTANTS
  Mods = {"a", "b", "c", "d"}
  Worlds <- TheWorlds
  Workers = {1, 2}
  MaxCrash = 4
  MaxRuns = 7
  MarkFirst = TRUE
INVARIANTS Trust Ready Fresh Emit
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
