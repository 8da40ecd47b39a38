INIT Init
NEXT Next
INVARIANTS Accepted Narrow Aligned GreedyOk
CONSTANT Widths = {8, 10}
CONSTANT Rows = 3
