INIT Init
NEXT Next
INVARIANTS Accepted Narrow Aligned GreedyOk
CONSTANT Widths = {5, 9, 12}
CONSTANT Rows = 2
