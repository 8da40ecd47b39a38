INIT Init
NEXT Next
INVARIANTS Shrinks Centered Counts Bars
CHECK_DEADLOCK FALSE
CONSTANTS MaxSize = 6 MaxLen = 6 MaxDen = 16
