INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 3
  Heights = {3, 4}
  Keys = {1, 2}
  Groups = {1, 2}
INVARIANTS Bounded SelExists NextPrev Aligned Transitions
