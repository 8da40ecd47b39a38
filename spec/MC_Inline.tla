------------------------------ MODULE MC_Inline -----------------------------
(* All small templates and arguments: filling the places with words is the  *)
(* same as parsing the text with the words at these places; arguments which *)
(* look like markdown change nothing around them and are shown as they are. *)
EXTENDS Inline, TLC
CONSTANTS MaxTokens
VARIABLES t, n, args
vars == << t, n, args >>

Tokens == {<< 97 >>, << DOLLAR >>, << 48 >>, << 49 >>, << DOLLAR, 48 >>, << STAR >>, << STAR, STAR >>, << TICK >>, << TILDE, TILDE >>, << BACKSLASH >>}
Words == {<<>>, << 120 >>, << 121, 32, 122 >>}
Marks == {<< STAR >>, << DOLLAR, 49 >>, << TICK, BACKSLASH, TICK >>, << TILDE, TILDE, STAR >>}
ArgLists == {<<>>} \cup {<< a >> : a \in Words \cup Marks} \cup {<< a, b >> : a \in Words \cup Marks, b \in Words}

Init == t = <<>> /\ n = 0 /\ args \in ArgLists
Next == n < MaxTokens /\ n' = n + 1 /\ args' = args /\ \E x \in Tokens : t' = t \o x

\* the text with the arguments put in place
RECURSIVE Subst(_)
Subst(x) ==
  IF x = <<>> THEN <<>>
  ELSE IF x[1] = DOLLAR /\ Len(x) > 1 THEN
         IF Digit(x[2]) /\ x[2] - 48 < Len(args) THEN args[x[2] - 47] \o Subst(Drop(x, 2)) ELSE << x[1], x[2] >> \o Subst(Drop(x, 2))
  ELSE << x[1] >> \o Subst(Tail(x))

P == Parse(t)
Chars(comps) == FlattenSeq([k \in 1..Len(comps) |-> [j \in 1..Len(comps[k].c) |-> << comps[k].c[j], comps[k].f >>]])
Plain(s) == [j \in 1..Len(s) |-> << s[j].c, s[j].f >>]
\* (an empty word would bring marks together)
AllWords == \A k \in 1..Len(args) : args[k] \in Words \ {<<>>}
AsSubstituted == AllWords => Chars(Fill(P, args)) = Plain(Styled(Subst(t), 1, 0, 0))
NothingLost == Chars(Fill(P, <<>>)) = Plain(Styled(t, 1, 0, 0))
\* what's outside of the places doesn't depend on the arguments
RECURSIVE Around(_, _)
Around(items, shown) ==
  IF items = <<>> THEN shown = <<>>
  ELSE LET x == items[1]
           w == ItemText(x, args)
       IN /\ Take(shown, Len(w)) = [j \in 1..Len(w) |-> << w[j], x.f >>]
          /\ Around(Tail(items), Drop(shown, Len(w)))
AsTheyAre == Around(P, Chars(Fill(P, args)))
Balanced == \A j \in 1..Len(P) : P[j].f \in 0..15
=============================================================================
