SPECIFICATION Spec
CONSTANTS
  MaxLines = 4
INVARIANTS OnlyAnswers Refused SameAsFunction
PROPERTY Ends
CHECK_DEADLOCK FALSE
