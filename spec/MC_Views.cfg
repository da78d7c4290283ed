SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Candidates <- C
  MaxPlayers <- N
INVARIANTS RankingOK TeamsOK Strict Export
