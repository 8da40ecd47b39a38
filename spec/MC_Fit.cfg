INIT Init
NEXT Next
INVARIANTS Elision Refs Verdicts
CONSTANT MaxLen = 4
