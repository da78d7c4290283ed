SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters <- L
  MaxLen <- N
INVARIANTS InBounds Tiling AtEnd
PROPERTIES Progress
