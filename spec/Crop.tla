-------------------------------- MODULE Crop --------------------------------
(* Writing in a limited number of columns.                                  *)
EXTENDS Chars

\* what is really queued: tabs are replaced
Expand(s, tab) == FlattenSeq([j \in 1..Len(s) |-> IF s[j] = TAB THEN tab ELSE << s[j] >>])

\* chars are taken one by one while they fit, a tab being taken entirely or not
RECURSIVE LongestFrom(_, _, _, _)
UnitWidth(c, tab) == IF c = TAB THEN TextWidth(tab) ELSE Width(c)
LongestFrom(s, j, left, tab) ==
  IF j > Len(s) \/ UnitWidth(s[j], tab) > left THEN j - 1
  ELSE LongestFrom(s, j + 1, left - UnitWidth(s[j], tab), tab)
\* number of chars of the longest prefix fitting in left columns
Longest(s, left, tab) == LongestFrom(s, 1, left, tab)
Fitting1(s, left, tab) == Expand(SubSeq(s, 1, Longest(s, left, tab)), tab)

\* What an item emits: nothing more may be written when it's full, but zero
\* width chars then may come or not.  Each item is a sequence of chars.
Emits(s, left, tab) ==
  {Fitting1(s, left, tab)} \cup (IF left = 0 THEN {<<>>} ELSE {})

Utf8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Bytes(s) == SumSeq([j \in 1..Len(s) |-> Utf8(s[j])])

\* a text in a spacing of w columns: completed, or cut (chars of one column then)
Padded(s, w, al) ==
  LET n == TextWidth(s)
      m == w - n
      l == CASE al = "r" -> m [] al = "c" -> m \div 2 [] OTHER -> 0
  IN IF n >= w THEN SubSeq(s, 1, w) ELSE Rep(SP, l) \o s \o Rep(SP, m - l)

\* n columns asked of a filling char
FillCount(c, n, left) == Min2(n, left) \div Max2(1, Width(c))
=============================================================================
