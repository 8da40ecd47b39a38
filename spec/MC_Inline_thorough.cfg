INIT Init
NEXT Next
CONSTANTS
  MaxTokens = 5
INVARIANTS AsSubstituted NothingLost AsTheyAre Balanced
CHECK_DEADLOCK FALSE
