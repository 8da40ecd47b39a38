------------------------------ MODULE Geometry ------------------------------
(* Areas, rectangles and progress bars.                                     *)
EXTENDS Chars, Areas

-----------------------------------------------------------------------------
(* rectangles *)
\* top left, top, top right, right, bottom right, bottom, bottom left, left
Border(name) ==
  CASE name = "bland" -> [k \in 1..8 |-> 32]
    [] name = "half" -> << 9627, 9600, 9628, 9616, 9631, 9604, 9625, 9612 >>
    [] name = "square" -> << 9484, 9472, 9488, 9474, 9496, 9472, 9492, 9474 >>
    [] name = "round" -> << 9581, 9472, 9582, 9474, 9583, 9472, 9584, 9474 >>
\* char shown at x, y by a rectangle of at least two columns and rows, 0 for none
RectCell(a, b, fill, x, y) ==
  LET l == x = a[1] r == x = Right(a) - 1 t == y = a[2] d == y = Bottom(a) - 1 IN
  IF ~Inside(a, x, y) THEN 0
  ELSE IF t THEN (IF l THEN b[1] ELSE IF r THEN b[3] ELSE b[2])
  ELSE IF d THEN (IF l THEN b[7] ELSE IF r THEN b[5] ELSE b[6])
  ELSE IF l THEN b[8] ELSE IF r THEN b[4]
  ELSE IF fill THEN 32 ELSE 0

-----------------------------------------------------------------------------
(* progress bars *)
\* the blocks are 9608 for a full cell to 9615 for one eighth
Bar(e) == Rep(9608, e \div 8) \o (IF e % 8 = 0 THEN <<>> ELSE << 9616 - (e % 8) >>)
\* completed to a width
Padded(s, w, al) == LET b == Blanks(Len(s), w, al) IN Rep(32, b[1]) \o s \o Rep(32, b[2])
=============================================================================
