------------------------------ MODULE MC_Clicks ------------------------------
(* Clicks, anywhere, at any pace around the delay: the step by step rule of  *)
(* EventSource.tla flags exactly the left button events whose last release   *)
(* before them is at the same cell and recent enough.                        *)
EXTENDS EventSource, TLC
CONSTANTS MaxEvents
VARIABLES hist, up
vars == << hist, up >>

E(s, x, y) == [k |-> "mouse", s |-> s, m |-> 0, x |-> x, y |-> y, kd |-> 0]
Events == {E(s, c[1], c[2]) : s \in {"Down(Left)", "Up(Left)", "Up(Right)"}, c \in {<< 1, 2 >>, << 2, 1 >>, << 1, 1 >>}}
            \cup {[E("FocusGained", 1, 2) EXCEPT !.k = "other"]}
Gaps == {0, 350010, DELAY - 10, DELAY + 10}

Now == IF hist = <<>> THEN 0 ELSE hist[Len(hist)].t
Init == hist = <<>> /\ up = <<>>
Next ==
  /\ Len(hist) < MaxEvents
  /\ \E e \in Events, g \in Gaps, d \in BOOLEAN :
       /\ DoubleClickIs(up, e, Now + g, d)
       /\ hist' = Append(hist, [e |-> e, t |-> Now + g, dbl |-> d])
       /\ up' = OnDelivered(up, e, Now + g)

\* said at once
Ups(k) == {j \in 1..(k - 1) : LeftUp(hist[j].e)}
Latest(S) == CHOOSE j \in S : \A q \in S : q <= j
Flagged(k) ==
  /\ Left(hist[k].e)
  /\ Ups(k) # {}
  /\ LET j == Latest(Ups(k)) IN
       /\ hist[j].e.x = hist[k].e.x /\ hist[j].e.y = hist[k].e.y
       /\ hist[k].t - hist[j].t < DELAY
Exactly == \A k \in 1..Len(hist) : hist[k].dbl = Flagged(k)
=============================================================================
