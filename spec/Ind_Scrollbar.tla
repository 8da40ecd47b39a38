--------------------------- MODULE Ind_Scrollbar ---------------------------
(* The thumbs of all contents, all heights and all scrolls, without bounds  *)
(* (symbolic check, by Apalache).                                           *)
EXTENDS Scrollbar
VARIABLES
  \* @type: Int;
  sc,
  \* @type: Int;
  n,
  \* @type: Int;
  h
Init == sc \in Nat /\ n \in Nat /\ h \in Nat /\ h >= 1 /\ n > h /\ sc <= n - h
Next == UNCHANGED << sc, n, h >>
T == Thumb(sc, n, h)
U == Thumb(sc + 1, n, h)
\* also when there's one blank line below the end
Good == GoodThumb(T, sc, n, h) /\ GoodThumb(U, sc + 1, n, h)
Monotone == sc + 1 <= n - h => T[1] <= U[1] /\ T[2] <= U[2]
Z == Thumb(0, n, h)
\* its length is one of two numbers which only depend on the sizes
Length == sc <= n - h => T[2] - T[1] \in {(h * h) \div n - 1, (h * h) \div n}
Proved == Good /\ Monotone /\ Length
=============================================================================
