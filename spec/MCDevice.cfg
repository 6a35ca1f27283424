SPECIFICATION Spec
INVARIANTS Once Data Fair LoadedKnown
VIEW Seen
CHECK_DEADLOCK FALSE
