------------------------------- MODULE MC_Fit -------------------------------
(* All ways of eliding small sources: the verdicts accept the ones which    *)
(* are right, and the reference fits.                                       *)
EXTENDS Fit, TLC
CONSTANTS MaxLen
Alpha == {[c |-> 97, f |-> 0], [c |-> 98, f |-> 1], [c |-> 26085, f |-> 0], [c |-> 769, f |-> 0], [c |-> 32, f |-> 0]}
VARIABLES S, R, room
vars == << S, R, room >>
Init ==
  /\ S \in UNION {[1..n -> Alpha] : n \in 0..MaxLen}
  /\ room \in 0..MaxLen
  /\ R = S
\* replace an interval
Cut(a, b) ==
  /\ ItemsWidth(R) > room
  /\ \A j \in a..b : ~IsEll(R[j])
  /\ R' = SubSeq(R, 1, a - 1) \o << EllItem >> \o SubSeq(R, b + 1, Len(R))
  /\ UNCHANGED << S, room >>
Next == (\E a \in 1..Len(R) : \E b \in a..Len(R) : Cut(a, b)) \/ UNCHANGED vars
Elision == Elided(S, R)
Refs == \A al \in {"l", "r"} : FitVerdict(S, RefFit(S, room, al), room, al) = "ok"
Verdicts ==
  /\ FitVerdict(S, R, room, "u") = "ok" => ItemsWidth(R) <= room
  /\ FitVerdict(S, R, room, "l") = "ok" /\ R # S /\ room > 0 => \E k \in 0..Len(S) : R = Append(SubSeq(S, 1, k), EllItem)
  /\ FitVerdict(S, R, room, "r") = "ok" /\ R # S /\ room > 0 => \E k \in 1..(Len(S) + 1) : R = << EllItem >> \o SubSeq(S, k, Len(S))
=============================================================================
