SPECIFICATION Spec
CONSTANTS
  MaxTyped = 3
INVARIANTS InOrder OneAtATime Counted NothingLost NothingAdded SeqShape
PROPERTIES Ends Silent Delivered
CHECK_DEADLOCK FALSE
