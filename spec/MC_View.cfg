INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxContent = 9
  MaxHeight = 5
INVARIANTS Bounded Transitions UpDown NoSkip Thumbs
