SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Documents <- D
  Others <- O
  MaxDocs <- Docs
  MaxOthers <- Oth
  MaxBlocks <- Blk
INVARIANTS Reassembled Torn Export
