------------------------------ MODULE Ind_Areas -----------------------------
(* Areas and progress bars of any size (symbolic check, by Apalache).       *)
EXTENDS Areas
VARIABLES
  \* @type: $area;
  a,
  \* @type: $area;
  b,
  \* @type: $area;
  c,
  \* @type: <<Int, Int>>;
  pos,
  \* @type: Int;
  len,
  \* @type: Int;
  num,
  \* @type: Int;
  den
Init ==
  /\ \E l \in Nat, t \in Nat, w \in Nat, h \in Nat, dx \in Nat, dy \in Nat, m \in Nat :
       /\ 2 * dx <= w /\ 2 * dy <= h
       /\ a = << l, t, w, h >>
       /\ b = Pad(a, dx, dy)
       /\ c \in PadMax(a, m)
       /\ c[3] = Min2(m, w)
  /\ \E x \in Int, y \in Int : pos = << x, y >>
  /\ len \in Nat /\ num \in Nat /\ den \in Nat /\ den >= 1 /\ num < den
Next == UNCHANGED << a, b, c, pos, len, num, den >>
\* @type: ($area) => Bool;
In(x) == Inside(x, pos[1], pos[2])
\* @type: ($area) => Bool;
Part(x) == x[3] >= 0 /\ x[4] >= 0 /\ (In(x) => In(a))
\* @type: ($area) => Bool;
Centered(x) == LET l == x[1] - a[1] r == Right(a) - Right(x) IN l - r \in {-1, 0, 1}
Parts == Part(b) /\ Part(c) /\ Centered(b) /\ Centered(c) /\ c[4] = a[4] /\ c[2] = a[2]
\* the nearest eighths
Now == Eighths(len, num, den)
Bars ==
  /\ Now # {}
  /\ \A x \in Now : x >= 0 /\ x <= 8 * len
  /\ Eighths(len, 0, den) = {0} /\ Eighths(len, den, den) = {8 * len}
Completed == \A al \in {"d", "l", "r", "c"} :
  LET x == Blanks(num, den, al) IN x[1] >= 0 /\ x[2] >= 0 /\ x[1] + num + x[2] = den /\ (al = "c" => x[2] - x[1] \in {0, 1})
Proved == Parts /\ Bars /\ Completed
=============================================================================
