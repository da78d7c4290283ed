SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters <- L
  MaxLen <- N
PROPERTIES Terminates
