------------------------------- MODULE MC_Crop ------------------------------
(* All small histories of a crop writer.                                    *)
EXTENDS Crop, TLC
CONSTANTS MaxAllowed, MaxOps
Alpha == {97, 26085, 769, TAB}
Items == UNION {[1..n -> Alpha] : n \in 0..3}
Tab == << 32, 32 >>
VARIABLES initial, left, written, ops, asked
vars == << initial, left, written, ops, asked >>
Init == /\ initial \in 0..MaxAllowed /\ left = initial /\ written = <<>> /\ ops = 0 /\ asked = <<>>
Queue ==
  /\ ops < MaxOps
  /\ \E s \in Items : \E x \in Emits(s, left, Tab) :
       /\ written' = written \o x
       /\ left' = left - TextWidth(x)
       /\ asked' = s
  /\ ops' = ops + 1 /\ UNCHANGED initial
Fill ==
  /\ ops < MaxOps
  /\ \E c \in {97, 26085}, n \in 0..3 :
       LET k == FillCount(c, n, left)
       IN written' = written \o Rep(c, k) /\ left' = left - k * Width(c)
  /\ asked' = <<>>
  /\ ops' = ops + 1 /\ UNCHANGED initial
Next == Queue \/ Fill
Budget == left >= 0 /\ left = initial - TextWidth(written)
\* the longest prefix which fits
Best ==
  \A s \in Items :
    LET k == Longest(s, left, Tab) IN
    /\ TextWidth(Fitting1(s, left, Tab)) <= left
    /\ \A n \in (k + 1)..Len(s) : TextWidth(Expand(SubSeq(s, 1, n), Tab)) > left
\* spacings: exactly the width, the text whole if it fits, balanced when centered
Narrow == {s \in Items : \A k \in 1..Len(s) : Width(s[k]) = 1}
Spacings ==
  ops = 0 =>
  \A s \in Narrow, al \in {"l", "r", "c", "u"} :
    LET x == Padded(s, left, al)
        blanks == [k \in 0..Len(x) |-> k]
    IN /\ TextWidth(x) = left
       /\ Len(s) <= left => \E k \in DOMAIN blanks :
            /\ x = Rep(SP, k) \o s \o Rep(SP, left - k - Len(s))
            /\ al \in {"l", "u"} => k = 0
            /\ al = "r" => k = left - Len(s)
            /\ al = "c" => (left - Len(s) - k) - k \in {0, 1}
       /\ Len(s) > left => \E k \in 0..Len(s) : x = SubSeq(s, 1, k)
=============================================================================
