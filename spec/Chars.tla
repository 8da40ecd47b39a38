------------------------------- MODULE Chars -------------------------------
(* Character classes, by Unicode code point: display width, alphanumeric,   *)
(* white space.  Defined on ranges which cover the alphabet used by the     *)
(* drivers, independently of the implementation under test.                 *)
EXTENDS Arith, Sequences, FiniteSets, SequencesExt, Functions

NL == 10
TAB == 9
SP == 32
ELL == 8230       \* horizontal ellipsis

ZeroWidth(c) == \/ c \in 768..879          \* combining marks
                \/ c \in 8203..8207        \* zero width space, joiners
                \/ c \in 65024..65039      \* variation selectors
DoubleWidth(c) == \/ c \in 4352..4447      \* hangul jamo
                  \/ c \in 11904..42191 /\ c # 12351   \* CJK, ideographic space, kana
                  \/ c \in 44032..55203    \* hangul
                  \/ c \in 63744..64255
                  \/ c \in 65040..65049
                  \/ c \in 65072..65135
                  \/ c \in 65281..65376    \* full width forms
                  \/ c \in 127744..128591  \* pictographs, emoticons
                  \/ c \in 128640..128767
                  \/ c \in 129280..129535
Width(c) == IF ZeroWidth(c) THEN 0 ELSE IF DoubleWidth(c) THEN 2 ELSE 1

Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
Digit(c) == c \in 48..57
AlNum(c) == \/ Upper(c) \/ Lower(c) \/ Digit(c)
            \/ c \in {170, 181, 186}
            \/ c \in 192..214 \/ c \in 216..246 \/ c \in 248..687
            \/ c \in 880..1023 /\ c \notin {884, 885, 894, 900, 901, 903, 1014}
            \/ c \in 12353..12438          \* hiragana
            \/ c \in 13312..19903 \/ c \in 19968..40959
            \/ c \in 44032..55203
WordChar(c) == AlNum(c) \/ c = 95
Blank(c) == \/ c \in 9..13 \/ c = 32 \/ c = 133 \/ c = 160 \/ c = 5760
            \/ c \in 8192..8202 \/ c \in {8232, 8233, 8239, 8287, 12288}

SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
TextWidth(s) == SumSeq([k \in 1..Len(s) |-> Width(s[k])])
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Rep(x, n) == [k \in 1..n |-> x]
=============================================================================
