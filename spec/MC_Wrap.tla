------------------------------- MODULE MC_Wrap ------------------------------
(* The free breaker, explored exhaustively on all small sources: whatever   *)
(* its choices, it's never stuck, it ends, and its result satisfies the      *)
(* verdicts used on the real code; and the greedy breaker is one of them.   *)
EXTENDS Wrap, TLC
CONSTANTS MaxLen, Widths
Alpha == {97, 26085, 32, 769}
VARIABLES src, width, first, other, pos, cur, lines, phase
vars == << src, width, first, other, pos, cur, lines, phase >>

Room == width - first
Prefix1 == IF lines = <<>> THEN first ELSE other
Col == Prefix1 + WidthOf(cur)
Left == SubSeq(src, pos, Len(src))
AllBlank(s) == \A j \in 1..Len(s) : Blank(s[j].c)

\* kf: compound index and flags of each char. At most 3 compounds, the second may be code
Sources == UNION {[1..n -> Alpha] : n \in 0..MaxLen}
Cuts == {<< a, b >> : a \in 0..MaxLen, b \in 0..MaxLen}
Init ==
  /\ \E s \in Sources, c \in Cuts, code \in BOOLEAN :
       /\ c[1] <= c[2] /\ c[2] <= Len(s)
       /\ src = [j \in 1..Len(s) |-> IF j <= c[1] THEN [c |-> s[j], f |-> 0, k |-> 1]
                                     ELSE IF j <= c[2] THEN [c |-> s[j], f |-> IF code THEN 8 ELSE 1, k |-> 2]
                                     ELSE [c |-> s[j], f |-> 0, k |-> 3]]
  /\ width \in Widths
  /\ \E m \in {<< 0, 0 >>, << 2, 2 >>, << 2, 0 >>} : first = m[1] /\ other = m[2]
  /\ width - first >= 2
  /\ pos = 1 /\ cur = <<>> /\ lines = <<>> /\ phase = "run"

\* the next unit: a blank, or a whole word
UnitEnd == IF WordPart(src[pos]) THEN WordRight(src, pos) ELSE pos
Unit == SubSeq(src, pos, UnitEnd)
Put ==
  /\ phase = "run" /\ pos <= Len(src)
  /\ Col + WidthOf(Unit) <= width
  /\ cur' = cur \o Unit /\ pos' = UnitEnd + 1
  /\ UNCHANGED << src, width, first, other, lines, phase >>
\* part of a word wider than the room (then a break or the end of the word must follow)
PutPart ==
  /\ phase = "run" /\ pos <= Len(src)
  /\ WordPart(src[pos]) /\ WordWidth(src, pos) > Room
  /\ \E e \in pos..UnitEnd :
       /\ Col + WidthOf(SubSeq(src, pos, e)) <= width
       /\ cur' = cur \o SubSeq(src, pos, e) /\ pos' = e + 1
  /\ UNCHANGED << src, width, first, other, lines, phase >>
\* blanks are dropped up to d
Break ==
  /\ phase = "run" /\ cur # <<>> /\ pos <= Len(src)
  /\ lines = <<>> \/ ~AllBlank(cur)
  /\ \E d \in 0..BlankRun(src, pos) :
       /\ ~AllBlank(SubSeq(src, pos + d, Len(src)))
       /\ CanBreak(src, pos - 1, pos + d, Room)
       \* blanks are kept only before a word with which they fit
       /\ LET a == pos + BlankRun(src, pos)
          IN d = BlankRun(src, pos)
             \/ other + WidthOf(SubSeq(src, pos + d, a - 1)) + WordWidth(src, a) <= width
       /\ pos' = pos + d
  /\ lines' = Append(lines, cur) /\ cur' = <<>>
  /\ UNCHANGED << src, width, first, other, phase >>
End ==
  /\ phase = "run"
  /\ AllBlank(Left)
  /\ cur # <<>> \/ src = <<>>
  /\ lines' = Append(lines, cur) /\ cur' = <<>> /\ phase' = "done"
  /\ UNCHANGED << src, width, first, other, pos >>
Done == phase = "done" /\ UNCHANGED vars
Next == Put \/ PutPart \/ Break \/ End \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Put \/ PutPart \/ Break \/ End)

Ends == <>(phase = "done")
Widths1 == \A j \in 1..Len(lines) : (IF j = 1 THEN first ELSE other) + WidthOf(lines[j]) <= width
Verdict == phase = "done" => TextVerdict(src, lines, Room) = "ok"
Visible(s) == SelectSeq(s, LAMBDA x : ~Blank(x.c))
Kept == phase = "done" => Visible(FlattenSeq(lines)) = Visible(src)
=============================================================================
