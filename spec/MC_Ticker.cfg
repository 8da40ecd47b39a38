SPECIFICATION Spec
CONSTANTS
  MaxBeams = 2
  MaxTime = 2
  MaxStops = 1
  Counts <- CountsSmall
  Periods <- PeriodsSmall
INVARIANTS Right AtMostOneMore
PROPERTIES Completes StoppedEnds
CHECK_DEADLOCK FALSE
