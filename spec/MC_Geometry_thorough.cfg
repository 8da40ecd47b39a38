INIT Init
NEXT Next
INVARIANTS Shrinks Centered Counts Bars
CHECK_DEADLOCK FALSE
CONSTANTS MaxSize = 10 MaxLen = 12 MaxDen = 40
