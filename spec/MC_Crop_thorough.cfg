INIT Init
NEXT Next
INVARIANTS Budget Best Spacings
CHECK_DEADLOCK FALSE
CONSTANT MaxAllowed = 4
CONSTANT MaxOps = 3
