------------------------------ MODULE MC_Render -----------------------------
(* All small lines, kinds, alignments, margins, paddings and widths: what   *)
(* is displayed is as wide as asked, keeps the text, and pads on the side   *)
(* the alignment says.                                                      *)
EXTENDS Render, TLC
CONSTANTS MaxOuter
VARIABLES kind, d, s, al, ml, mr, spw, outer, mode
vars == << kind, d, s, al, ml, mr, spw, outer, mode >>

Col(n) == [fg |-> ToString(n), bg |-> "", at |-> <<>>]
Ls(n) == [cs |-> Col(n), al |-> al, ml |-> ml, mr |-> mr]
SC(c) == [c |-> c, cs |-> Col(c)]
Skin == [para |-> Ls(1), code |-> Ls(2), table |-> Ls(3), h |-> << Ls(4) >>, bold |-> [fg |-> "", bg |-> "b", at |-> << "1" >>],
         italic |-> [fg |-> "i", bg |-> "", at |-> << "3" >>], strike |-> Col(5), icode |-> Col(6), ell |-> Col(7),
         bullet |-> SC(42), quote |-> SC(62), hr |-> SC(45), special |-> << [c |-> << 120 >>, f |-> 1, by |-> SC(121)] >>, mode |-> mode]
Kinds == {<< "p", 0 >>, << "h", 1 >>, << "c", 0 >>, << "q", 0 >>, << "l", 0 >>, << "l", 2 >>, << "f", 2 >>}
Cp(c, f) == [c |-> c, f |-> f]
Sources == {<<>>, << Cp(<< 97 >>, 0) >>, << Cp(<< 97, 32 >>, 1), Cp(<< 26085 >>, 3) >>, << Cp(<< 120 >>, 1), Cp(<< 97, 769 >>, 8) >>}

Init ==
  /\ \E k \in Kinds : kind = k[1] /\ d = k[2]
  /\ s \in Sources
  /\ al \in {"l", "c", "r", "u"}
  /\ ml \in {0, 2} /\ mr \in {0, 1}
  /\ spw \in {-1, 4, 7}
  /\ outer \in {-1} \cup 1..MaxOuter
  /\ mode \in {"block", "first"}
  \* a padded part is never wider than its padding
  /\ spw = -1 \/ spw >= VisibleLength(mode, kind, d, s)
Next == UNCHANGED vars

All == CompositeCells(Skin, mode, kind, d, s, spw, "l", outer, TRUE, TRUE)
NoRight == CompositeCells(Skin, mode, kind, d, s, spw, "l", outer, FALSE, TRUE)
M == IF outer = -1 THEN << ml, mr >> ELSE Margins(ml, mr, outer)
Inner == Max2(VisibleLength(mode, kind, d, s), spw)
Chars(x) == [j \in 1..Len(x) |-> x[j].c]
Text == FlattenSeq([k \in 1..Len(s) |-> IF s[k].c = << 120 >> THEN << 121 >> ELSE s[k].c])
Marks == {42, 62}

WidthOk == CellsWidth(All) = IF outer = -1 THEN Inner + M[1] + M[2] ELSE Max2(outer, Inner + M[1] + M[2])
Prefixed == IsPrefix(NoRight, All) /\ \A j \in (Len(NoRight) + 1)..Len(All) : All[j].c = SP
Visible(c) == SelectSeq(c, LAMBDA x : x # SP)
TextOnce == Visible(Chars(All)) = (CASE kind = "l" -> << 42 >> [] kind = "q" -> << 62 >> [] OTHER -> <<>>) \o Visible(Text)
\* number of blanks before and after
RECURSIVE Lead(_)
Lead(c) == IF c # <<>> /\ c[1] = SP THEN 1 + Lead(Tail(c)) ELSE 0
Sided ==
  outer # -1 /\ outer >= Inner + M[1] + M[2] =>
    LET free == outer - Inner - M[1] - M[2]
        before == CASE al = "r" -> free [] al = "c" -> free \div 2 [] OTHER -> 0
    IN \A j \in 1..(before + M[1]) : All[j].c = SP /\ All[j].s = CS(Skin.para.cs)
\* composition of styles: associative, with a neutral element
StyleSet == {[fg |-> f, bg |-> b, at |-> a] : f \in {"", "1", "2"}, b \in {"", "3"}, a \in {{}, {"1"}, {"3"}}}
None == [fg |-> "", bg |-> "", at |-> {}]
ASSUME \A x \in StyleSet, y \in StyleSet, z \in StyleSet :
  /\ Over(Over(x, y), z) = Over(x, Over(y, z))
  /\ Over(x, None) = x /\ Over(None, x) = x
  /\ Over(x, x) = x
=============================================================================
