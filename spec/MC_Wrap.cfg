SPECIFICATION Spec
INVARIANTS Widths1 Verdict Kept
CONSTANT MaxLen = 4
CONSTANT Widths = {3, 4}
