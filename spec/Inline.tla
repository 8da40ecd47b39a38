------------------------------- MODULE Inline -------------------------------
(* Inline templates: a markdown snippet in which $0..$9 are places for      *)
(* arguments.  A template is a sequence of code points; parsed, it's a      *)
(* sequence of items [c, f, k, h]: char, flags of its style, index of its   *)
(* compound, and hole: -1 for a char, the number of the argument for a      *)
(* place (c is then the digit).                                             *)
EXTENDS Render

STAR == 42
TILDE == 126
TICK == 96
BACKSLASH == 92
PIPE == 124
DOLLAR == 36

Toggle(f, n) == IF Bit(f, n) THEN f - n ELSE f + n
At(t, j) == IF j <= Len(t) THEN t[j] ELSE -1

\* chars with their flags and the index of their compound
RECURSIVE Styled(_, _, _, _)
Styled(t, j, f, k) ==
  IF j > Len(t) THEN <<>>
  ELSE IF Bit(f, 8) THEN
         IF t[j] = TICK THEN Styled(t, j + 1, f - 8, k + 1)
         ELSE << [c |-> t[j], f |-> f, k |-> k] >> \o Styled(t, j + 1, f, k)
  ELSE IF t[j] = BACKSLASH /\ At(t, j + 1) \in {STAR, TILDE, TICK, PIPE} THEN
         << [c |-> t[j + 1], f |-> f, k |-> k + 1] >> \o Styled(t, j + 2, f, k + 1)
  ELSE IF t[j] = BACKSLASH /\ At(t, j + 1) = BACKSLASH THEN
         << [c |-> BACKSLASH, f |-> f, k |-> k] >> \o Styled(t, j + 2, f, k + 1)
  ELSE IF t[j] = TICK THEN Styled(t, j + 1, f + 8, k + 1)
  ELSE IF t[j] = STAR /\ At(t, j + 1) = STAR THEN Styled(t, j + 2, Toggle(f, 1), k + 1)
  ELSE IF t[j] = STAR THEN Styled(t, j + 1, Toggle(f, 2), k + 1)
  ELSE IF t[j] = TILDE /\ At(t, j + 1) = TILDE THEN Styled(t, j + 2, Toggle(f, 4), k + 1)
  ELSE << [c |-> t[j], f |-> f, k |-> k] >> \o Styled(t, j + 1, f, k)

\* a dollar and a digit, in the same compound, are a place
RECURSIVE Holes(_, _, _)
Holes(s, j, dollar) ==
  IF j > Len(s) THEN <<>>
  ELSE LET x == s[j]
           after == dollar /\ s[j - 1].k = x.k
           item(h) == [c |-> x.c, f |-> x.f, k |-> x.k, h |-> h]
       IN IF after /\ Digit(x.c) THEN << item(x.c - 48) >> \o Holes(s, j + 1, FALSE)
          ELSE (IF after THEN << [c |-> DOLLAR, f |-> x.f, k |-> x.k, h |-> -1] >> ELSE <<>>)
               \* the char after an unpaired dollar can't be the dollar of a place
               \o (IF x.c = DOLLAR /\ ~after /\ At([q \in 1..Len(s) |-> s[q].k], j + 1) = x.k
                   THEN Holes(s, j + 1, TRUE)
                   ELSE << item(-1) >> \o Holes(s, j + 1, FALSE))
Parse(t) == Holes(Styled(t, 1, 0, 0), 1, FALSE)

\* the text of an item, an argument taking its place as it is
ItemText(x, args) ==
  IF x.h = -1 THEN << x.c >>
  ELSE IF x.h < Len(args) THEN args[x.h + 1]
  ELSE << DOLLAR, x.c >>

Fill(items, args) == [j \in 1..Len(items) |-> [c |-> ItemText(items[j], args), f |-> items[j].f]]

InlineCells(sk, comps) == CompositeCells(sk, sk.mode, "p", 0, comps, -1, "l", -1, FALSE, TRUE)
=============================================================================
