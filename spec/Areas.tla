------------------------------- MODULE Areas --------------------------------
(* Areas and progress bars, as arithmetic.  An area is left, top, width,    *)
(* height.                                                                  *)
EXTENDS Arith
\* @typeAlias: area = <<Int, Int, Int, Int>>;
AreaTypes == TRUE

\* @type: ($area) => Int;
Right(a) == a[1] + a[3]
\* @type: ($area) => Int;
Bottom(a) == a[2] + a[4]
\* @type: ($area, Int, Int) => Bool;
Inside(a, x, y) == x >= a[1] /\ x < Right(a) /\ y >= a[2] /\ y < Bottom(a)
\* @type: ($area, Int, Int) => $area;
Pad(a, dx, dy) == << a[1] + dx, a[2] + dy, a[3] - 2 * dx, a[4] - 2 * dy >>
\* shrinks which the width may take: centered, up to a column
\* @type: ($area, Int) => Set($area);
PadMax(a, m) ==
  IF m >= a[3] THEN {a}
  ELSE {<< a[1] + d, a[2], m, a[4] >> : d \in {(a[3] - m) \div 2, (a[3] - m + 1) \div 2}}

\* eighths of cells which may show num / den of a length: the nearest one(s)
\* @type: (Int, Int, Int) => Set(Int);
Eighths(len, num, den) ==
  LET low == (8 * len * num) \div den
  IN  {e \in {low, low + 1} : 2 * (e * den - 8 * len * num) <= den /\ 2 * (8 * len * num - e * den) <= den}
\* blanks before and after what has a length, to complete it to a width
\* @type: (Int, Int, Str) => <<Int, Int>>;
Blanks(len, w, al) ==
  LET n == Monus(w, len)
      before == CASE al \in {"d", "l"} -> 0 [] al = "r" -> n [] al = "c" -> n \div 2
  IN  << before, n - before >>
=============================================================================
