INIT Init
NEXT Next
CONSTANTS
  MaxEvents = 4
INVARIANTS Exactly
CHECK_DEADLOCK FALSE
