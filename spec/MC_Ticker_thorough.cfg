SPECIFICATION Spec
CONSTANTS
  MaxBeams = 2
  MaxTime = 2
  MaxStops = 2
  Counts <- CountsAll
  Periods <- PeriodsAll
INVARIANTS Right AtMostOneMore
PROPERTIES Completes StoppedEnds
CHECK_DEADLOCK FALSE
