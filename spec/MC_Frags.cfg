SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- A
  FrameKinds <- K
  Preamble <- P
  MaxMsgs <- M
  MaxTotal <- T
  MaxFrames <- F
INVARIANTS FragsOK PrintsOK Export
