-------------------------------- MODULE Style --------------------------------
(* The textual syntax of styles, and the algebra of styles.                 *)
(*                                                                          *)
(* A color is a sequence: <<>> none, <<n>> a color of the 256 colors table, *)
(* <<r, g, b>>, or <<-1>> for the default color of the terminal.            *)
(* A compound style is [fg, bg, at]; a line style [cs, al, ml, mr]; a       *)
(* styled char [c, cs]; a scrollbar style [track, thumb] (styled chars).    *)
(* Texts are sequences of code points.  A token is [k, v]: its kind and its *)
(* value in a sequence.                                                     *)
EXTENDS Chars

-----------------------------------------------------------------------------
(* texts *)
\* code points of a lower case keyword
CodeOf(ch) ==
  LET low == "abcdefghijklmnopqrstuvwxyz"
  IN  IF ch = "_" THEN 95 ELSE IF ch = "-" THEN 45 ELSE IF ch = "(" THEN 40
      ELSE 96 + CHOOSE k \in 1..26 : SubSeq(low, k, k) = ch
Codes(s) == [k \in 1..Len(s) |-> CodeOf(SubSeq(s, k, k))]

LowerCase(s) == [k \in 1..Len(s) |-> IF Upper(s[k]) THEN s[k] + 32 ELSE s[k]]
AllDigits(s) == s # <<>> /\ \A k \in 1..Len(s) : Digit(s[k])
\* only asked for on short sequences
Value(s) == FoldLeft(LAMBDA acc, c : 10 * acc + (c - 48), 0, s)
NumUpTo(s, max) == AllDigits(s) /\ Len(s) <= 9 /\ Value(s) <= max
HexDigit(c) == Digit(c) \/ c \in 97..102
HexVal(c) == IF Digit(c) THEN c - 48 ELSE c - 87

-----------------------------------------------------------------------------
(* tokens *)
Tok(k, v) == [k |-> k, v |-> v]
Bad == Tok("bad", <<>>)

ColorNames == << << "black", 16 >>, << "white", 231 >>, << "red", 9 >>, << "darkred", 1 >>, << "green", 10 >>,
  << "darkgreen", 2 >>, << "yellow", 11 >>, << "darkyellow", 3 >>, << "blue", 12 >>, << "darkblue", 4 >>,
  << "magenta", 13 >>, << "darkmagenta", 5 >>, << "cyan", 14 >>, << "darkcyan", 6 >>,
  << "grey", 7 >>, << "gray", 7 >>, << "darkgrey", 8 >>, << "darkgray", 8 >>, << "reset", -1 >> >>
\* attributes are designated by their SGR code; the words of a name are stuck together or separated by - or _
AttrWords == << << << "bold" >>, "1" >>, << << "dim" >>, "2" >>, << << "italic" >>, "3" >>, << << "under", "lined" >>, "4" >>,
  << << "slow", "blink" >>, "5" >>, << << "rapid", "blink" >>, "6" >>, << << "reverse" >>, "7" >>,
  << << "crossed", "out" >>, "9" >>, << << "strikeout" >>, "9" >>, << << "encircled" >>, "52" >>, << << "over", "lined" >>, "53" >>,
  << << "double", "underlined" >>, "4:2" >>, << << "undercurled" >>, "4:3" >>, << << "underdotted" >>, "4:4" >>,
  << << "underdashed" >>, "4:5" >>, << << "hidden" >>, "8" >>, << << "fraktur" >>, "20" >>, << << "framed" >>, "51" >>,
  << << "no", "bold" >>, "21" >>, << << "normal", "intensity" >>, "22" >>, << << "no", "italic" >>, "23" >>,
  << << "no", "underline" >>, "24" >>, << << "no", "blink" >>, "25" >>, << << "no", "reverse" >>, "27" >>,
  << << "no", "hidden" >>, "28" >>, << << "not", "crossed", "out" >>, "29" >>,
  << << "not", "framed", "or", "encircled" >>, "54" >>, << << "not", "over", "lined" >>, "55" >> >>
RECURSIVE Spellings(_)
Spellings(words) ==
  IF Len(words) = 1 THEN { Codes(words[1]) }
  ELSE { Codes(words[1]) \o sep \o rest : sep \in {<<>>, <<45>>, <<95>>}, rest \in Spellings(Tail(words)) }
AlignNames == << << "left", "l" >>, << "center", "c" >>, << "right", "r" >> >>
Attrs == {AttrWords[k][2] : k \in 1..Len(AttrWords)}
\* computed once
CodedColors == [k \in 1..Len(ColorNames) |-> << Codes(ColorNames[k][1]), ColorNames[k][2] >>]
CodedAttrs == FoldLeft(\o, <<>>, [k \in 1..Len(AttrWords) |-> SetToSeq({ << w, AttrWords[k][2] >> : w \in Spellings(AttrWords[k][1]) })])
CodedAligns == [k \in 1..Len(AlignNames) |-> << Codes(AlignNames[k][1]), AlignNames[k][2] >>]
Find(table, s) == SelectSeq(table, LAMBDA x : x[1] = s)

\* name(args)
OpenAt(s) == LET ks == {k \in 1..Len(s) : s[k] = 40} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
IsCall(s) == OpenAt(s) > 1 /\ s[Len(s)] = 41
CallName(s) == SubSeq(s, 1, OpenAt(s) - 1)
CallArgs(s) == SubSeq(s, OpenAt(s) + 1, Len(s) - 1)
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ Blank(s[1]) THEN LTrim(Tail(s)) ELSE s
\* parts separated by commas; blanks are allowed after a comma
CommaParts(s) ==
  LET at == SetToSortSeq({k \in 1..Len(s) : s[k] = 44}, <) \o << Len(s) + 1 >>
  IN  [j \in 1..Len(at) |-> IF j = 1 THEN SubSeq(s, 1, at[1] - 1) ELSE LTrim(SubSeq(s, at[j-1] + 1, at[j] - 1))]
GrayNames == {Codes("gray"), Codes("grey"), Codes("grayscale"), Codes("greyscale")}
AnsiName == Codes("ansi")
RgbName == Codes("rgb")

\* the color said by a (lower case) text, or <<-2>>
NotColor == << -2 >>
ColorOf(s) ==
  LET named == Find(CodedColors, s) IN
  IF named # <<>> THEN << named[1][2] >>
  ELSE IF IsCall(s) THEN
    LET n == CallName(s) a == CallArgs(s) IN
    IF n = AnsiName THEN (IF NumUpTo(a, 255) THEN << Value(a) >> ELSE NotColor)
    ELSE IF n \in GrayNames THEN (IF NumUpTo(a, 23) THEN << 232 + Value(a) >> ELSE NotColor)
    ELSE IF n = RgbName THEN
      LET p == CommaParts(a)
      IN  IF Len(p) = 3 /\ \A j \in 1..3 : NumUpTo(p[j], 255) THEN [j \in 1..3 |-> Value(p[j])] ELSE NotColor
    ELSE NotColor
  ELSE IF s # <<>> /\ s[1] = 35 /\ Len(s) \in {4, 7} /\ \A k \in 2..Len(s) : HexDigit(s[k])
    THEN IF Len(s) = 4 THEN [j \in 1..3 |-> 17 * HexVal(s[j + 1])]
         ELSE [j \in 1..3 |-> 16 * HexVal(s[2 * j]) + HexVal(s[2 * j + 1])]
  ELSE NotColor

NoneCodes == Codes("none")
Lex(src) ==
  LET s == LowerCase(src) IN
  IF s = NoneCodes THEN Tok("none", <<>>)
  ELSE IF NumUpTo(s, 65535) THEN Tok("dim", << Value(s) >>)
  ELSE IF ColorOf(s) # NotColor THEN Tok("col", ColorOf(s))
  ELSE IF Find(CodedAttrs, s) # <<>> THEN Tok("att", << Find(CodedAttrs, s)[1][2] >>)
  ELSE IF Find(CodedAligns, s) # <<>> THEN Tok("al", << Find(CodedAligns, s)[1][2] >>)
  ELSE IF Len(src) = 1 THEN Tok("chr", src)
  ELSE Bad

\* cutting a text in tokens: runs of non blank chars, with a parenthesis of words
\* and commas.  Gives the texts of the tokens.
ArgChar(c) == WordChar(c) \/ c = 44 \/ Blank(c)
Plain(c) == ~Blank(c) /\ c \notin {40, 41}
RECURSIVE Cut(_, _)
Cut(s, from) ==
  IF from > Len(s) THEN <<>>
  ELSE IF ~Plain(s[from]) THEN Cut(s, from + 1)
  ELSE LET stop == {k \in from..Len(s) : ~Plain(s[k])}
           e == IF stop = {} THEN Len(s) + 1 ELSE CHOOSE k \in stop : \A j \in stop : k <= j
           close == {k \in (e + 1)..Len(s) : ~ArgChar(s[k])}
           z == IF close = {} THEN 0 ELSE CHOOSE k \in close : \A j \in close : k <= j
           call == e <= Len(s) /\ s[e] = 40 /\ z > e + 1 /\ s[z] = 41
           last == IF call THEN z ELSE e - 1
       IN  << SubSeq(s, from, last) >> \o Cut(s, last + 1)
Tokens(s) == LET c == Cut(s, 1) IN [k \in 1..Len(c) |-> Lex(c[k])]
AnyBad(toks) == \E k \in 1..Len(toks) : toks[k].k = "bad"

-----------------------------------------------------------------------------
(* what tokens mean *)
Of(toks, kinds) == SelectSeq(toks, LAMBDA t : t.k \in kinds)
NoStyle == [fg |-> <<>>, bg |-> <<>>, at |-> {}]
CompoundOf(toks) ==
  LET cols == Of(toks, {"col", "none"})
      atts == Of(toks, {"att"})
      later == SelectSeq(Tail(cols), LAMBDA t : t.k = "col")
  IN  [fg |-> IF cols = <<>> THEN <<>> ELSE cols[1].v,
       bg |-> IF Len(cols) < 2 \/ later = <<>> THEN <<>> ELSE later[Len(later)].v,
       at |-> {atts[k].v[1] : k \in 1..Len(atts)}]
LineOf(toks) ==
  LET als == Of(toks, {"al"}) dims == Of(toks, {"dim"})
  IN  [cs |-> CompoundOf(toks),
       al |-> IF als = <<>> THEN "u" ELSE als[Len(als)].v[1],
       ml |-> IF dims = <<>> THEN 0 ELSE dims[1].v[1],
       mr |-> IF Len(dims) < 2 THEN 0 ELSE dims[Len(dims)].v[1]]
CharOf(toks, default) ==
  LET chs == Of(toks, {"chr"})
  IN  [c |-> IF chs = <<>> THEN default ELSE chs[1].v[1], cs |-> CompoundOf(toks)]

-----------------------------------------------------------------------------
(* writing: tokens of a value (the texts of the tokens are the business of  *)
(* Text), used to check the design: what's written is read back             *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN << 48 + n >> ELSE Dec(n \div 10) \o << 48 + (n % 10) >>
ColorText(c) ==
  CASE Len(c) = 3 -> RgbName \o << 40 >> \o Dec(c[1]) \o << 44, 32 >> \o Dec(c[2]) \o << 44, 32 >> \o Dec(c[3]) \o << 41 >>
    [] c = << -1 >> -> Codes("reset")
    [] OTHER -> AnsiName \o << 40 >> \o Dec(c[1]) \o << 41 >>
Text(t) ==
  CASE t.k = "none" -> NoneCodes
    [] t.k = "dim" -> Dec(t.v[1])
    [] t.k = "col" -> ColorText(t.v)
    [] t.k = "att" -> SelectSeq(CodedAttrs, LAMBDA x : x[2] = t.v[1])[1][1]
    [] t.k = "al" -> SelectSeq(CodedAligns, LAMBDA x : x[2] = t.v[1])[1][1]
    [] t.k = "chr" -> t.v
RECURSIVE Join(_)
Join(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o << 32 >> \o Join(Tail(ts))
TextOf(toks) == Join([k \in 1..Len(toks) |-> Text(toks[k])])

AttrSeq(at) == LET all == SetToSeq(at) IN [k \in 1..Len(all) |-> Tok("att", << all[k] >>)]
CompoundToks(cs) ==
  (IF cs.fg # <<>> THEN << Tok("col", cs.fg) >> ELSE IF cs.bg # <<>> THEN << Tok("none", <<>>) >> ELSE <<>>)
  \o (IF cs.bg # <<>> THEN << Tok("col", cs.bg) >> ELSE <<>>)
  \o AttrSeq(cs.at)
LineToks(ls) ==
  CompoundToks(ls.cs)
  \o (IF ls.al = "u" THEN <<>> ELSE << Tok("al", << ls.al >>) >>)
  \o (IF ls.ml > 0 \/ ls.mr > 0 THEN << Tok("dim", << ls.ml >>), Tok("dim", << ls.mr >>) >> ELSE <<>>)
CharToks(sc) == << Tok("chr", << sc.c >>) >> \o CompoundToks(sc.cs)
Markable(c) == ~Blank(c) /\ ~Digit(c) /\ c \notin {40, 41}

-----------------------------------------------------------------------------
(* the algebra *)
Over(a, b) == [fg |-> IF b.fg # <<>> THEN b.fg ELSE a.fg,
               bg |-> IF b.bg # <<>> THEN b.bg ELSE a.bg,
               at |-> a.at \cup b.at]

\* color of the table as rgb (the 16 first ones depend on the terminal)
Level(n) == IF n = 0 THEN 0 ELSE 55 + 40 * n
ToRgb(c) ==
  IF Len(c) = 3 THEN c
  ELSE IF c[1] >= 232 THEN LET g == 8 + 10 * (c[1] - 232) IN << g, g, g >>
  ELSE LET n == c[1] - 16 IN << Level(n \div 36), Level((n \div 6) % 6), Level(n % 6) >>
\* (the color library used has other values for 241 and 242)
Known(c) == Len(c) = 3 \/ (c[1] >= 16 /\ c[1] \notin {241, 242})
MaxMin(c) == Max2(Max2(c[1], c[2]), c[3]) + Min2(Min2(c[1], c[2]), c[3])
Near(a, b, d) == a - b <= d /\ b - a <= d
\* weight in thousandths.  Between its ends, blending is only described by the
\* luminosity, which is halfway between the one of the mean color and the mean
\* of luminosities
Blended(src, dest, w, r) ==
  IF src = <<>> THEN r = <<>>
  ELSE IF w = 0 THEN r = src
  ELSE Len(r) = 3 /\ (Known(src) /\ Known(dest)) =>
    LET a == ToRgb(src) b == ToRgb(dest)
        mean == [j \in 1..3 |-> (a[j] * (1000 - w) + b[j] * w) \div 1000]
        l2 == (MaxMin(a) * (1000 - w) + MaxMin(b) * w) \div 1000
    IN  /\ w = 1000 => \A j \in 1..3 : Near(r[j], b[j], 4)
        /\ Near(2 * MaxMin(r), MaxMin(mean) + l2, 14)
        \* between grays everything is known
        /\ (a[1] = a[2] /\ a[2] = a[3] /\ b[1] = b[2] /\ b[2] = b[3]) => \A j \in 1..3 : Near(r[j], mean[j], 4)
BlendedStyle(x, dest, w, r) ==
  /\ r.at = x.at
  /\ Blended(x.fg, dest, w, r.fg) /\ Blended(x.bg, dest, w, r.bg)
  /\ x.fg = x.bg => r.fg = r.bg
=============================================================================
