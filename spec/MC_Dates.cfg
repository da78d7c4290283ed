SPECIFICATION DSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {}
  FrameKinds = {}
  Preamble <- P0
  MaxMsgs = 0
  MaxTotal = 0
  MaxFrames = 0
INVARIANTS InstantOK DateOK Export
