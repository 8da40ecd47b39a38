INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxContent = 28
  MaxHeight = 9
INVARIANTS Bounded Transitions UpDown NoSkip Thumbs
