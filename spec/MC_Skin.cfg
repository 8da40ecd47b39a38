INIT Init
NEXT Next
CONSTANT MaxSteps = 2
CONSTANT Small = TRUE
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
