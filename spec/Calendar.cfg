SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS DayNumberOK CycleOK
