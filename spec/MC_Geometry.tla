---------------------------- MODULE MC_Geometry ----------------------------
(* Design check: shrinks stay inside and centered, rectangles cover their   *)
(* border once and only their area, bars grow from empty to full.           *)
EXTENDS Geometry, TLC
CONSTANTS MaxSize, MaxLen, MaxDen
VARIABLES a, prev, bar
vars == << a, prev, bar >>
Sizes == 0..MaxSize
Init == \/ a \in {1} \X {2} \X Sizes \X Sizes /\ prev = a /\ bar = <<>>
        \/ a = << 0, 0, 0, 0 >> /\ prev = a /\ \E l \in 0..MaxLen, d \in 1..MaxDen : \E n \in 0..d : bar = << l, n, d >>
Next == /\ bar = <<>> /\ prev' = a /\ bar' = bar
        /\ \/ \E dx \in 0..(a[3] \div 2), dy \in 0..(a[4] \div 2) : a' = Pad(a, dx, dy)
           \/ \E m \in Sizes : a' \in PadMax(a, m)
Cells(x) == {<< i, j >> \in (0..(MaxSize + 4)) \X (0..(MaxSize + 4)) : Inside(x, i, j)}
Shrinks == /\ Cells(a) \subseteq Cells(prev)
           /\ a[3] >= 0 /\ a[4] >= 0
           /\ a[1] >= prev[1] /\ Right(a) <= Right(prev) /\ a[2] >= prev[2] /\ Bottom(a) <= Bottom(prev)
Centered == LET l == a[1] - prev[1] r == Right(prev) - Right(a) IN l - r \in {-1, 0, 1}
Counts == (a[3] >= 2 /\ a[4] >= 2) =>
  LET Shown(fill) == {c \in (0..(MaxSize + 4)) \X (0..(MaxSize + 4)) : RectCell(a, Border("round"), fill, c[1], c[2]) # 0}
  IN  /\ Shown(TRUE) = Cells(a)
      /\ Cardinality(Shown(FALSE)) = 2 * (a[3] + a[4]) - 4
      /\ Shown(FALSE) = Cells(a) \ Cells(Pad(a, 1, 1))
Bars == bar # <<>> =>
  LET l == bar[1] n == bar[2] d == bar[3] es == Eighths(l, n, d)
  IN  /\ es # {} /\ \A e \in es : e >= 0 /\ e <= 8 * l /\ Len(Bar(e)) <= l
      /\ n = 0 => es = {0}
      /\ n = d => es = {8 * l}
      /\ n < d => \A e \in es, e2 \in Eighths(l, n + 1, d) : e <= e2
      /\ \A e \in es, w \in 0..(l + 3), al \in {"d", "l", "c", "r"} : w >= l => Len(Padded(Bar(e), w, al)) = w
=============================================================================
