INIT Init
NEXT Next
INVARIANTS Fits KeptFits Covered OneLine ShownText
CHECK_DEADLOCK FALSE
CONSTANT MaxW = 7
