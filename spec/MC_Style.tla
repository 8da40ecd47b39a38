------------------------------ MODULE MC_Style ------------------------------
(* Design check of styles: what is written is read back, the order of tokens*)
(* of different kinds doesn't matter, composing is associative.             *)
EXTENDS Style, TLC
CONSTANTS MaxToks, WithAttrs
VARIABLES toks, a, b, c
vars == << toks, a, b, c >>

Colors == {<<>>, << 9 >>, << 200, 0, 35 >>, << -1 >>}
ColorToks == {Tok("none", <<>>)} \cup {Tok("col", x) : x \in Colors \ {<<>>}}
AttrSets == IF WithAttrs THEN {{}, {"1"}, {"53", "4"}} ELSE {{}, {"1"}}
Styles == [fg : Colors, bg : Colors, at : AttrSets]
AllToks == ColorToks \cup {Tok("att", << x >>) : x \in {"1", "53"}} \cup {Tok("al", << x >>) : x \in {"l", "r"}}
           \cup {Tok("dim", << x >>) : x \in {0, 7, 65535}} \cup {Tok("chr", << x >>) : x \in {124, 42, 9744}}

Init == \/ toks = <<>> /\ a \in Styles /\ b \in Styles /\ c \in Styles
        \/ toks = <<>> /\ a = NoStyle /\ b = NoStyle /\ c = NoStyle
Next == /\ a = NoStyle /\ b = NoStyle /\ c = NoStyle /\ Len(toks) < MaxToks
        /\ \E t \in AllToks : toks' = Append(toks, t)
        /\ UNCHANGED << a, b, c >>

\* the texts are cut in the tokens they're made of
ReadBack == Tokens(TextOf(toks)) = toks
\* two neighbours of different kinds may be swapped
SameClass(t1, t2) == t1.k = t2.k \/ {t1.k, t2.k} = {"col", "none"}
Swapped(k) == [toks EXCEPT ![k] = toks[k + 1], ![k + 1] = toks[k]]
OrderFree == \A k \in 1..(Len(toks) - 1) : ~SameClass(toks[k], toks[k + 1]) =>
  /\ CompoundOf(Swapped(k)) = CompoundOf(toks)
  /\ LineOf(Swapped(k)) = LineOf(toks)
  /\ CharOf(Swapped(k), 42) = CharOf(toks, 42)

Written(x, y) ==
  /\ CompoundOf(Tokens(TextOf(CompoundToks(x)))) = x
  /\ LET ls == [cs |-> x, al |-> IF y.bg = <<>> THEN "u" ELSE "c", ml |-> IF y.fg = <<>> THEN 0 ELSE 3, mr |-> Len(y.bg)]
     IN  LineOf(Tokens(TextOf(LineToks(ls)))) = ls
  /\ \A ch \in {124, 97, 45, 9744} :
       LET sc == [c |-> ch, cs |-> x] IN CharOf(Tokens(TextOf(CharToks(sc))), 42) = sc
RoundTrip == c = NoStyle => Written(a, b)
Algebra ==
  /\ Over(a, Over(b, c)) = Over(Over(a, b), c)
  /\ Over(a, NoStyle) = a /\ Over(NoStyle, a) = a /\ Over(a, a) = a
  /\ (Over(a, b)).at = a.at \cup b.at
=============================================================================
