INIT Init
NEXT Next
CONSTANTS
  MaxEvents = 3
INVARIANTS Exactly
CHECK_DEADLOCK FALSE
