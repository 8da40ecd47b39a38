-------------------------------- MODULE Wrap --------------------------------
(* Breaking a line of styled text in lines of a given width.                *)
(*                                                                          *)
(* A source is a sequence of chars [c |-> code point, f |-> style flags,    *)
(* k |-> index of the compound the char comes from].  A "word" is a run of  *)
(* non blank chars of one compound; in inline code blanks are part of words.*)
(* The breaker is free to choose where it breaks, inside these rules:       *)
(*   - no char is lost, but blanks at the breaks                            *)
(*   - a word is cut only when it's wider than the room                     *)
(*   - no line is wider than the width                                      *)
EXTENDS Chars

IsCode(x) == x.f >= 8
WordPart(x) == IsCode(x) \/ ~Blank(x.c)
SameChar(x, y) == x.c = y.c /\ x.f = y.f

\* flat sequence of the chars of a sequence of compounds [c |-> chars, f |-> flags]
Flat(s) == FlattenSeq([k \in 1..Len(s) |-> [j \in 1..Len(s[k].c) |-> [c |-> s[k].c[j], f |-> s[k].f, k |-> k]]])
WidthOf(S) == SumSeq([k \in 1..Len(S) |-> Width(S[k].c)])

\* kinds: p(aragraph) h(eader) l(ist item) f(ollow up of a list item) c(ode) q(uote)
Prefix(kind, depth, mode) ==
  CASE kind = "l" -> 2 + depth
    [] kind = "f" -> IF mode = "block" THEN 2 + depth ELSE 0
    [] kind = "q" -> 2
    [] OTHER -> 0
FollowKind(kind) == IF kind = "l" THEN "f" ELSE kind

\* margins are ignored when they would let less than 3 columns
Margins(l, r, w) == IF w < l + r + 3 THEN << 0, 0 >> ELSE << l, r >>

\* width of the word around the char at index q (which is a word part)
RECURSIVE WordLeft(_, _), WordRight(_, _)
WordLeft(S, q) == IF q > 1 /\ S[q-1].k = S[q].k /\ WordPart(S[q-1]) THEN WordLeft(S, q - 1) ELSE q
WordRight(S, q) == IF q < Len(S) /\ S[q+1].k = S[q].k /\ WordPart(S[q+1]) THEN WordRight(S, q + 1) ELSE q
WordWidth(S, q) == WidthOf(SubSeq(S, WordLeft(S, q), WordRight(S, q)))

\* can a line end on the char q and the next one start on the char r, blanks
\* in between being dropped ?
CanBreak(S, q, r, room) ==
  \/ r > q + 1
  \/ q < 1 \/ r > Len(S)
  \/ Blank(S[q].c) \/ Blank(S[r].c)
  \/ S[q].k # S[r].k
  \/ WordWidth(S, q) > room

RECURSIVE BlankRun(_, _)
\* number of blanks in S from the index p
BlankRun(S, p) == IF p <= Len(S) /\ Blank(S[p].c) THEN 1 + BlankRun(S, p + 1) ELSE 0

\* The next indexes in S after having consumed the line X from one of the
\* indexes of P, blanks being dropped before it when it's not the first one
Matches(S, at, X, styled) ==
  /\ at + Len(X) - 1 <= Len(S)
  /\ \A j \in 1..Len(X) : S[at + j - 1].c = X[j].c /\ (styled => S[at + j - 1].f = X[j].f)
Starts(S, P, first) == UNION {{<< p, d >> : d \in 0..(IF first THEN 0 ELSE BlankRun(S, p))} : p \in P}
After(S, P, X, first, room, styled, breaks) ==
  {m[1] + m[2] + Len(X) : m \in {m \in Starts(S, P, first) :
     /\ Matches(S, m[1] + m[2], X, styled)
     /\ breaks /\ ~first => CanBreak(S, m[1] - 1, m[1] + m[2], room)}}

Consume(S, w, X, first, last, room) ==
  IF w.v # "ok" THEN w
  ELSE IF X = <<>> THEN (IF S = <<>> THEN w ELSE [w EXCEPT !.v = "empty line"])
  ELSE IF ~first /\ ~last /\ \A j \in 1..Len(X) : ~WordPart(X[j]) THEN [w EXCEPT !.v = "blank line"]
  ELSE
  LET Q == After(S, w.P, X, first, room, TRUE, TRUE)
  IN IF Q # {} THEN [P |-> Q, v |-> "ok"]
     ELSE IF After(S, w.P, X, first, room, TRUE, FALSE) # {} THEN [w EXCEPT !.v = "word cut"]
     ELSE IF After(S, w.P, X, first, room, FALSE, FALSE) # {} THEN [w EXCEPT !.v = "style changed"]
     ELSE [w EXCEPT !.v = "text changed"]

\* verdict on the text of the result (sequence of flat lines)
TextVerdict(S, lines, room) ==
  LET n == Len(lines)
      w == FoldLeft(LAMBDA acc, j : Consume(S, acc, lines[j], j = 1, j = n, room), [P |-> {1}, v |-> "ok"], [j \in 1..n |-> j])
  IN IF n = 0 THEN "no line"
     ELSE IF w.v # "ok" THEN w.v
     ELSE IF \A p \in w.P : \E j \in p..Len(S) : ~Blank(S[j].c) THEN "text lost"
     ELSE "ok"

\* A reference breaker: puts as much as possible on each line.
\* room: room on the first line; other: room on the other ones
AllBlankChars(s) == \A j \in 1..Len(s) : ~WordPart(s[j])
RECURSIVE Fitting(_, _, _, _)
\* last index such as the chars from a hold in the room (at most e)
Fitting(S, a, e, room) == IF a > e \/ Width(S[a].c) > room THEN a - 1 ELSE Fitting(S, a + 1, e, room - Width(S[a].c))
RECURSIVE GreedyFrom(_, _, _, _, _, _)
GreedyFrom(S, p, cur, left, room, other) ==
  IF p > Len(S) THEN << cur >>
  ELSE
  LET e == IF WordPart(S[p]) THEN WordRight(S, p) ELSE p
      unit == SubSeq(S, p, e)
  IN IF WidthOf(unit) <= left
     THEN GreedyFrom(S, e + 1, cur \o unit, left - WidthOf(unit), room, other)
     ELSE IF ~WordPart(S[p]) THEN
       LET q == p + BlankRun(S, p)
       IN IF q > Len(S) THEN << cur >>
          ELSE IF cur = <<>> THEN GreedyFrom(S, q, cur, left, room, other)
          ELSE << cur >> \o GreedyFrom(S, q, <<>>, other, other, other)
     ELSE IF WidthOf(unit) <= room /\ cur # <<>> THEN << cur >> \o GreedyFrom(S, p, <<>>, other, other, other)
     ELSE LET f == Fitting(S, p, e, left)
          IN IF f < p THEN << cur >> \o GreedyFrom(S, p, <<>>, other, other, other)
             ELSE << cur \o SubSeq(S, p, f) >> \o GreedyFrom(S, f + 1, <<>>, other, other, other)
Greedy(S, room, other) == GreedyFrom(S, 1, <<>>, room, room, other)
=============================================================================
