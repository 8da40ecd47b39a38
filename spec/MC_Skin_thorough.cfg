INIT Init
NEXT Next
CONSTANT MaxSteps = 3
CONSTANT Small = FALSE
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
