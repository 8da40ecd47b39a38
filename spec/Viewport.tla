------------------------------ MODULE Viewport ------------------------------
(* How the viewports of the lists and of the fields move, as arithmetic:    *)
(* what's seen of n rows starts after the sc first ones, h being the height.*)
EXTENDS Arith

-----------------------------------------------------------------------------
(* a list of d displayed rows in a body of tb rows *)
\* @type: (Int, Int) => Int;
ListMaxScroll(d, tb) == IF d > tb THEN d - tb + 1 ELSE 0
\* @type: (Int, Int) => Int;
ListBottomScroll(d, tb) == Monus(d, tb)
\* the scroll showing the row p (from 0), with some context if possible
\* @type: (Int, Int, Int, Int) => Int;
Revealing(p, sc, d, tb) ==
  IF d <= tb THEN sc
  ELSE IF tb < 3
       THEN IF p < sc THEN p
            ELSE IF p >= sc + tb THEN p + 1 - tb ELSE sc
       ELSE IF p <= sc THEN Monus(p, 2)
            ELSE IF p + 1 >= sc + tb THEN p + 2 - tb ELSE sc
\* scrolled by n rows
\* @type: (Int, Int, Int, Int) => Int;
ListScrolled(n, sc, d, tb) == IF n < 0 THEN Max2(0, sc + n) ELSE Min2(sc + n, ListMaxScroll(d, tb))

-----------------------------------------------------------------------------
(* a field: n lines in h rows with the cursor in line y, then a line of lw  *)
(* columns in w with the cursor at column c; sc is the previous scroll, f   *)
(* whether the field has the focus                                          *)
\* @type: (Int, Int, Int, Int, Bool) => Int;
FieldY(sc, h, n, y, f) ==
  LET s0 == IF sc + h > n THEN n - h ELSE sc
      m == IF h > 4 THEN 1 ELSE 0      \* context line
  IN  IF n <= h THEN 0
      ELSE IF ~f THEN s0
      ELSE IF s0 > y THEN Monus(y, m)
      ELSE IF y >= s0 + h THEN (y - h + 1) + (IF y + 1 < n THEN m ELSE 0)
      ELSE s0
\* @type: (Int, Int, Int, Int, Bool) => Int;
FieldX(sc, w, lw, c, f) ==
  LET left == IF w < 4 THEN (IF w > 1 THEN 1 ELSE 0) ELSE 2    \* context columns
      right == IF w < 4 THEN 1 ELSE 2
      s1 == IF ~f THEN sc
            ELSE IF c < sc + left THEN Monus(c, left)
            ELSE IF c + right > sc + w THEN c + right - w
            ELSE sc
  IN  IF lw < w THEN 0
      ELSE IF s1 + w > lw + 1 THEN lw + 1 - w ELSE s1
\* columns of the text which may be seen: a left ellipsis covers the first
\* column of wide enough fields
\* @type: (Int, Int) => Int;
FirstSeen(sc, w) == IF sc > 0 /\ w > 4 THEN sc + 1 ELSE sc
=============================================================================
