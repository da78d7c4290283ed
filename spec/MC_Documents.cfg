SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Members <- Ms
  Commas <- Cs
  Closings <- Es
  MaxMembers <- N
  MaxSlips <- Slips
  MinMembers <- Least
  Spent <- SpentSlips
INVARIANTS Read Torn Export
