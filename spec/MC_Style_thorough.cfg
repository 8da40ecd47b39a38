INIT Init
NEXT Next
CONSTANT MaxToks = 5
CONSTANT WithAttrs = TRUE
INVARIANT ReadBack
INVARIANT OrderFree
INVARIANT RoundTrip
INVARIANT Algebra
CHECK_DEADLOCK FALSE
