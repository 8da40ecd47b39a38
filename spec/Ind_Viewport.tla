---------------------------- MODULE Ind_Viewport ----------------------------
(* The viewports of the lists and of the fields, for all sizes, positions   *)
(* and previous scrolls (symbolic check, by Apalache).                      *)
EXTENDS Viewport
VARIABLES
  \* @type: Int;
  sc,
  \* @type: Int;
  n,
  \* @type: Int;
  h,
  \* @type: Int;
  p,
  \* @type: Int;
  d,
  \* @type: Bool;
  f
\* n rows (or columns) in h, the row (or column) p being of interest
Init ==
  /\ sc \in Nat /\ n \in Nat /\ h \in Nat /\ p \in Nat /\ d \in Int /\ f \in BOOLEAN
  /\ h >= 1
Next == UNCHANGED << sc, n, h, p, d, f >>

\* lists
L == Revealing(p, sc, n, h)
Listed == p < n /\ sc <= ListMaxScroll(n, h) =>
  /\ 0 <= L /\ L <= ListMaxScroll(n, h)
  /\ n > h => L <= p /\ p < L + h
  \* nothing moves when it's already seen with its context
  /\ n > h /\ sc < p /\ p + 1 < sc + h => L = sc
  \* revealing again changes nothing, but where the context takes all the rows
  /\ h # 3 => Revealing(p, L, n, h) = L
LS == ListScrolled(d, sc, n, h)
Scrolled == sc <= ListMaxScroll(n, h) =>
  /\ 0 <= LS /\ LS <= ListMaxScroll(n, h)
  /\ 0 <= sc + d /\ sc + d <= ListMaxScroll(n, h) => LS = sc + d

\* fields: vertically, n lines and the cursor in line p
Y == FieldY(sc, h, n, p, f)
FieldRows == p < n =>
  /\ 0 <= Y
  /\ Y + h <= Max2(n, h)
  /\ f => Y <= p /\ p < Y + h
  /\ f => FieldY(Y, h, n, p, f) = Y
\* horizontally, a line of n columns and the cursor at column p <= n, which
\* may be that of a wide char
X == FieldX(sc, h, n, p, f)
FieldColumns == p <= n =>
  /\ 0 <= X
  /\ X + h <= Max2(n + 1, h)
  /\ f => FirstSeen(X, h) <= p /\ p < X + h
  /\ f => FieldX(X, h, n, p, f) = X
Proved == Listed /\ Scrolled /\ FieldRows /\ FieldColumns
=============================================================================
