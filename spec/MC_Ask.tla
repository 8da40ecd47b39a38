------------------------------- MODULE MC_Ask -------------------------------
(* All short inputs typed to all small questions: nothing but an answer or  *)
(* the default comes out, at the first line which allows it, and it ends.   *)
EXTENDS Ask, TLC
CONSTANTS MaxLines
VARIABLES q, lines, st
vars == << q, lines, st >>

A == << 97 >>
B == << 98 >>
Texts == {<<>>, << SP >>, A, << 97, SP >>, << SP, 97 >>, B, << 97, 98 >>, << 99, TAB >>, << SP, 97, SP, SP >>}
KeySets == {<< A >>, << A, B >>, << << SP, 97 >>, A >>, << A, << 97, 98 >> >>, << B, B >>}
Qs == {[md |-> <<>>, ans |-> [k \in 1..Len(ks) |-> [k |-> ks[k], md |-> <<>>]], d |-> d] :
        ks \in KeySets, d \in {<<>>, << A >>, << << 99 >> >>, << <<>> >>}}

Init ==
  /\ q \in Qs
  /\ lines \in UNION {[1..n -> Texts] : n \in 0..MaxLines}
  /\ st = Start(0)
Next == st.r = <<>> /\ st' = Read(q, lines, st) /\ UNCHANGED << q, lines >>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Keyed(l) == \E k \in 1..Len(q.ans) : q.ans[k].k = TrimEnd(l)
Empty(l) == \A j \in 1..Len(l) : Blank(l[j])
OnlyAnswers ==
  CASE st.r = <<>> -> TRUE
    [] st.r = << "end" >> -> q.d = <<>> /\ st.pos = Len(lines)
    [] OTHER -> (\E k \in 1..Len(q.ans) : st.r[2] = q.ans[k].k) \/ << st.r[2] >> = q.d
\* the lines refused are exactly those which couldn't be accepted
Refused ==
  /\ st.refused <= st.pos
  /\ \A k \in 1..st.refused : ~Keyed(lines[k]) /\ (q.d = <<>> \/ ~Empty(lines[k]))
  /\ st.r = <<>> => st.refused = st.pos
  /\ st.r # <<>> /\ st.refused < st.pos =>
       st.pos = st.refused + 1 /\ (Keyed(lines[st.pos]) \/ (Empty(lines[st.pos]) /\ q.d # <<>>))
SameAsFunction == st.r # <<>> => st = Asked(q, lines, Start(0))
Ends == <>(st.r # <<>>)
=============================================================================
