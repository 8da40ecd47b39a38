INIT Init
NEXT Next
CONSTANT MaxToks = 3
CONSTANT WithAttrs = FALSE
INVARIANT ReadBack
INVARIANT OrderFree
INVARIANT RoundTrip
INVARIANT Algebra
CHECK_DEADLOCK FALSE
