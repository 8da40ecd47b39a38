SPECIFICATION Spec
INVARIANTS Widths1 Verdict Kept
CONSTANT MaxLen = 5
CONSTANT Widths = {3, 4}
