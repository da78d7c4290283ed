SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet <- A
  FrameKinds <- K
  Preamble <- A
  MaxMsgs <- M
  MaxTotal <- T
  MaxFrames <- N
INVARIANTS LedgerOK ViewsOK JointlyOK Export
