------------------------------ MODULE MC_Output -----------------------------
(* A program showing a text in all the ways, on a terminal which is         *)
(* resized: all the ways, all the breakings of a small text.                *)
EXTENDS Output, TLC
CONSTANTS MaxW
VARIABLES s, at, way, lines, rows
vars == << s, at, way, lines, rows >>

Col(n) == [fg |-> ToString(n), bg |-> "", at |-> <<>>]
Ls(n) == [cs |-> Col(n), al |-> "l", ml |-> 0, mr |-> 0]
Skin == [para |-> Ls(1), bold |-> Col(2), italic |-> Col(3), strike |-> Col(5), icode |-> Col(6), ell |-> Col(7), special |-> <<>>, mode |-> "first"]
Text == << 97, 98, 26085, 99 >>
\* all the ways of cutting the text in lines fitting a width
Line(c) == [t |-> "n", kind |-> "p", d |-> 0, bw |-> -1, s |-> << [c |-> c, f |-> 0] >>]
RECURSIVE Cuts(_, _)
Cuts(c, w) ==
  IF c = <<>> THEN {<<>>}
  ELSE UNION {{<< SubSeq(c, 1, k) >> \o r : r \in Cuts(SubSeq(c, k + 1, Len(c)), w)} :
              k \in {k \in 1..Len(c) : TextWidth(SubSeq(c, 1, k)) <= w}}
Formats(w) == {[k \in 1..Len(x) |-> Line(x[k])] : x \in (IF w = -1 THEN {<< Text >>} ELSE Cuts(Text, w))}

Areas == {<< x, 0, w, h >> : x \in 0..1, w \in 3..MaxW, h \in 1..3}
None == [o |-> "none", n |-> 0, area |-> << 0, 0, 0, 0 >>]
Init == s = [w |-> 4, h |-> 5, kept |-> -1] /\ at = 0 /\ way = None /\ lines = <<>> /\ rows = <<>>
Resize ==
  /\ \E w \in 2..MaxW : s' = Step(s, [o |-> "resize", w |-> w, h |-> 5])
  /\ way' = None /\ rows' = <<>> /\ UNCHANGED << at, lines >>
Keep ==
  /\ s' = Step(s, [o |-> "keep"])
  /\ at' = s.w
  /\ lines' \in Formats(s.w)
  /\ way' = None /\ rows' = <<>>
Show ==
  /\ way' \in [o : Ways, n : {3}, area : Areas]
  /\ way'.o = "print_kept" => s.kept # -1
  /\ way'.o \in InArea \/ way'.area = << 0, 0, 3, 1 >>
  /\ \E l \in (IF way'.o = "print_kept" THEN {lines} ELSE Formats(FormatWidth(s, way'))) :
       rows' = Expected(s, way', Skin, l)
  /\ UNCHANGED << s, at, lines >>
\* what is shown is only looked at
Next == way = None /\ (Resize \/ Keep \/ Show)

\* nothing is wider than the terminal when shown for it
Fits == way.o \in Termed => \A k \in 1..Len(rows) : CellsWidth(rows[k]) <= s.w
\* a kept text is still formatted for what the terminal was
KeptFits == way.o = "print_kept" => \A k \in 1..Len(rows) : CellsWidth(rows[k]) <= at
\* an area is covered, and no more
Covered == way.o \in Windows => Len(rows) = way.area[4] /\ \A k \in 1..Len(rows) : CellsWidth(rows[k]) = way.area[3]
OneLine == way.o \in Snippets \cup Unwrapped => Len(rows) = 1
\* the whole text is shown, once, in order; its start in an area
Chars(x) == SelectSeq([j \in 1..Len(x) |-> x[j].c], LAMBDA c : c # SP)
ShownText == LET all == FlattenSeq([k \in 1..Len(rows) |-> Chars(rows[k])])
             IN way.o = "none" \/ (IF way.o \in Windows THEN IsPrefix(all, Text) ELSE all = Text)
=============================================================================
