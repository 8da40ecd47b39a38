INIT Init
NEXT Next
CONSTANTS
  MaxTokens = 4
INVARIANTS AsSubstituted NothingLost AsTheyAre Balanced
CHECK_DEADLOCK FALSE
