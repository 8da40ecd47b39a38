INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Alphabet = {97, 26085, 769}
  Areas <- AreasWide
INVARIANTS Valid Bounded MovesOnlyMove LeftRight CutPaste TypeUndo EnterUndo DeleteIsRightBackspace LinesMove DelWords Visible Ignores ClickShown Shown
