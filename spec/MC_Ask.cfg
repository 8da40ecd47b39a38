SPECIFICATION Spec
CONSTANTS
  MaxLines = 3
INVARIANTS OnlyAnswers Refused SameAsFunction
PROPERTY Ends
CHECK_DEADLOCK FALSE
