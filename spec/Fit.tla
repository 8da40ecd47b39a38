--------------------------------- MODULE Fit --------------------------------
(* Fitting a composite in a width: some intervals of its chars are replaced *)
(* each with an ellipsis, at the places the alignment allows.               *)
EXTENDS Render

EllItem == [c |-> ELL, f |-> 0]
IsEll(x) == x.c = ELL
\* flat sequence of [c, f], ellipsis included
Items(s) == LET f == Flat(s) IN [j \in 1..Len(f) |-> [c |-> f[j].c, f |-> f[j].f]]
ItemsWidth(x) == SumSeq([j \in 1..Len(x) |-> Width(x[j].c)])

\* positions reachable in S after having read the item x, from P (position = index of the next char)
AfterItem(S, P, x) ==
  IF IsEll(x) THEN UNION {(p + 1)..(Len(S) + 1) : p \in P}
  ELSE {p + 1 : p \in {q \in P : q <= Len(S) /\ S[q] = x}}
\* is R made of S with intervals replaced with ellipsis ?
Elided(S, R) == (Len(S) + 1) \in FoldLeft(LAMBDA P, x : AfterItem(S, P, x), {1}, R)

\* where ellipsis may be
Shape(al, R) ==
  LET n == Len(R) IN
  CASE al = "l" -> \A j \in 1..n : IsEll(R[j]) <=> j = n
    [] al = "r" -> \A j \in 1..n : IsEll(R[j]) <=> j = 1
    [] al = "c" -> n > 0 /\ \A j \in 1..n : IsEll(R[j]) => j \in {1, n}
    [] OTHER -> TRUE

\* centered fits keep the middle: as much is removed on both sides
Balanced(S, R) ==
  LET K == SelectSeq(R, LAMBDA x : ~IsEll(x)) n == Len(K) IN
  \/ n = 0
  \/ \E p \in 0..(Len(S) - n) :
       /\ SubSeq(S, p + 1, p + n) = K
       /\ LET l == ItemsWidth(SubSeq(S, 1, p)) r == ItemsWidth(SubSeq(S, p + n + 1, Len(S)))
          IN l <= r + 2 /\ r <= l + 2

Narrow(S) == \A j \in 1..Len(S) : Width(S[j].c) <= 1
\* room: columns for the text; more isn't removed than necessary
FitVerdict(S, R, room, al) ==
  IF ItemsWidth(S) <= room THEN (IF R = S THEN "ok" ELSE "a fitting composite was changed")
  ELSE IF room = 0 THEN (IF R = <<>> THEN "ok" ELSE "something in no width")
  ELSE IF ItemsWidth(R) > room THEN "too wide"
  ELSE IF ~Elided(S, R) THEN "chars kept aren't the ones of the source with marked removals"
  \* (an already elided source may have ellipsis anywhere)
  ELSE IF (\A j \in 1..Len(S) : ~IsEll(S[j])) /\ ~Shape(al, R) THEN "removal at the wrong place"
  ELSE IF ItemsWidth(R) < room - (IF Narrow(S) THEN 0 ELSE 2) THEN "removed too much"
  ELSE IF al = "c" /\ Narrow(S) /\ (\A j \in 1..Len(S) : ~IsEll(S[j])) /\ ~Balanced(S, R) THEN "not the middle"
  ELSE "ok"

\* reference fits
RECURSIVE KeepLeft(_, _)
KeepLeft(S, room) == IF ItemsWidth(S) <= room THEN S ELSE KeepLeft(SubSeq(S, 1, Len(S) - 1), room)
RECURSIVE KeepRight(_, _)
KeepRight(S, room) == IF ItemsWidth(S) <= room THEN S ELSE KeepRight(Tail(S), room)
RefFit(S, room, al) ==
  IF ItemsWidth(S) <= room THEN S
  ELSE IF room = 0 THEN <<>>
  ELSE IF al = "r" THEN << EllItem >> \o KeepRight(S, room - 1)
  ELSE KeepLeft(S, room - 1) \o << EllItem >>

\* padding recorded by fit, extend and fill; [w, al], w = -1 for none
FitSpacing(sp, w) == IF sp.w > w THEN [sp EXCEPT !.w = w] ELSE sp
ExtendSpacing(sp, vl, w, al) ==
  IF sp.w # -1 THEN [w |-> Max2(sp.w, w), al |-> al]
  ELSE IF vl < w THEN [w |-> w, al |-> al]
  ELSE sp
=============================================================================
