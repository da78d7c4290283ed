SPECIFICATION FarSpec
CHECK_DEADLOCK FALSE
INVARIANTS Export
