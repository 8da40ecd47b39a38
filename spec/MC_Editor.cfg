INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
  Alphabet = {97, 32, 10}
  Areas <- AreasQuick
INVARIANTS Valid Bounded MovesOnlyMove LeftRight CutPaste TypeUndo EnterUndo DeleteIsRightBackspace LinesMove DelWords Visible Ignores ClickShown Shown
