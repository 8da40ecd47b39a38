------------------------------- MODULE Editor -------------------------------
(* The input field: a text edited through a cursor and a selection, shown   *)
(* in a rectangular viewport.                                               *)
(*                                                                          *)
(* Text is specified as ONE flat sequence of characters (lines joined by    *)
(* newlines) and an offset in it; edits are removals and insertions of      *)
(* ranges of this sequence.  The line/column structure is derived.          *)
(*                                                                          *)
(* A state is a record                                                      *)
(*   L  lines (sequences of code points)   p   cursor <<x, y>> (0-based)    *)
(*   t  selection origin <<x, y>>, or <<>>  sc  scroll <<x, y>>             *)
(*   f  focused    a  area <<left, top, width, height>>   pw  password mode *)
(*   nk set of keys declared as new line keys                               *)
EXTENDS Chars, Scrollbar, Viewport

TabWidth == 2
CW(c) == IF c = TAB THEN TabWidth ELSE Width(c)
LineWidth(s) == SumSeq([k \in 1..Len(s) |-> CW(s[k])])
ColOf(line, x) == LineWidth(SubSeq(line, 1, x))

-----------------------------------------------------------------------------
(* flat text *)
Flat(L) == FlattenSeq([k \in 1..Len(L) |-> IF k < Len(L) THEN Append(L[k], NL) ELSE L[k]])
Split(T) ==
  LET ends == SetToSortSeq({k \in DOMAIN T : T[k] = NL}, <) \o << Len(T) + 1 >>
  IN  [k \in 1..Len(ends) |-> SubSeq(T, (IF k = 1 THEN 1 ELSE ends[k-1] + 1), ends[k] - 1)]
\* number of characters before a position
Offset(L, p) == p[1] + SumSeq([k \in 1..p[2] |-> Len(L[k]) + 1])
PosAt(T, o) ==
  LET nls == {k \in 1..o : T[k] = NL}
  IN  << IF nls = {} THEN o ELSE o - Max(nls), Cardinality(nls) >>

NbLines(st) == Len(st.L)
LineAt(st, y) == st.L[y + 1]
CurLine(st) == LineAt(st, st.p[2])
EndPos(L) == << Len(L[Len(L)]), Len(L) - 1 >>
ValidPos(L, p) == IF p[2] >= Len(L) THEN EndPos(L) ELSE << Min2(p[1], Len(L[p[2] + 1])), p[2] >>
PosOk(L, p) == p[2] >= 0 /\ p[2] < Len(L) /\ p[1] >= 0 /\ p[1] <= Len(L[p[2] + 1])
Before(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])

HasSel(st) == st.t # <<>>
Wide(st) == HasSel(st) /\ st.t # st.p
SelMin(st) == IF HasSel(st) /\ Before(st.t, st.p) THEN st.t ELSE st.p
SelMax(st) == IF HasSel(st) /\ Before(st.p, st.t) THEN st.t ELSE st.p
InSel(st, x, y) == ~Before(<<x, y>>, SelMin(st)) /\ ~Before(SelMax(st), <<x, y>>)
\* the selected text: both ends included
SelText(st) ==
  LET T == Flat(st.L) a == Offset(st.L, SelMin(st)) b == Offset(st.L, SelMax(st))
  IN  SubSeq(T, a + 1, Min2(b + 1, Len(T)))

-----------------------------------------------------------------------------
(* edits.  Each one gives the state after, the scroll being fixed by FixScroll *)
FixTail(L, t) == IF t = <<>> THEN t ELSE ValidPos(L, t)
WithText(st, T, o) ==
  LET L == Split(T) IN [st EXCEPT !.L = L, !.p = PosAt(T, o), !.t = FixTail(L, @)]
Cur(st) == Offset(st.L, st.p)
\* remove the characters of offsets a..b-1, cursor going to a
RemoveRange(st, a, b) ==
  LET T == Flat(st.L) IN WithText(st, SubSeq(T, 1, a) \o SubSeq(T, b + 1, Len(T)), a)
Ignored(c) == c = 13 \/ c = 8
InsertChar(st, c) ==
  IF Ignored(c) THEN st
  ELSE LET T == Flat(st.L) o == Cur(st)
       IN  WithText(st, SubSeq(T, 1, o) \o << c >> \o SubSeq(T, o + 1, Len(T)), o + 1)
InsertStr(st, s) == FoldLeft(LAMBDA acc, c : InsertChar(acc, c), st, s)
NoSel(st) == [st EXCEPT !.t = <<>>]
Cleared(st) == [st EXCEPT !.L = << <<>> >>, !.p = <<0, 0>>, !.t = <<>>]

TextLen(st) == Len(Flat(st.L))
CanDelLeft(st) == Cur(st) > 0
CanDelBelow(st) == Cur(st) < TextLen(st)
DelLeft(st) == RemoveRange(st, Cur(st) - 1, Cur(st))
DelBelow(st) == RemoveRange(st, Cur(st), Cur(st) + 1)
DelWide(st) ==
  LET T == Flat(st.L) a == Offset(st.L, SelMin(st)) b == Offset(st.L, SelMax(st))
  IN  NoSel(RemoveRange(st, a, Min2(b + 1, Len(T))))

\* word left of the cursor, inside the line: at least one char, then all the
\* alphanumeric chars before
WordLeftX(line, x) ==
  CHOOSE z \in 0..(x-1) :
    /\ \A k \in (z+1)..(x-1) : AlNum(line[k])
    /\ z = 0 \/ ~AlNum(line[z])
\* moving right by word stops on the last char of an alphanumeric run
WordRightX(line, x) ==
  CHOOSE z \in (x+1)..Len(line) :
    /\ z + 1 >= Len(line) \/ ~AlNum(line[z + 2])
    /\ \A k \in (x+1)..(z-1) : k + 1 < Len(line) /\ AlNum(line[k + 2])
\* deletion of a word to the right: the alphanumeric run at the cursor and the
\* char following it (or just the char at the cursor if not alphanumeric)
WordDelEnd(line, x) ==
  LET ks == {k \in (x+1)..Len(line) : ~AlNum(line[k])}
  IN  IF ks = {} THEN Len(line) ELSE Min(ks)

DelWordRight(st) ==
  LET line == CurLine(st) x == st.p[1] e == WordDelEnd(line, x)
      s2 == RemoveRange(st, Cur(st), Cur(st) + (e - x))
      n2 == Len(CurLine(s2))
  IN  \* when the last removed char was alphanumeric the end of the line was
      \* reached: the cursor is then put on the last remaining char
      IF AlNum(line[e]) /\ n2 > 0 THEN [s2 EXCEPT !.p = << x - 1, st.p[2] >>] ELSE s2

SwapLines(st, y1, y2) ==
  [st EXCEPT !.L = [@ EXCEPT ![y1 + 1] = st.L[y2 + 1], ![y2 + 1] = st.L[y1 + 1]]]
MoveLine(st, y2) ==
  LET s2 == SwapLines(st, st.p[2], y2) IN [s2 EXCEPT !.p = << st.p[1], y2 >>, !.t = FixTail(s2.L, @)]

WordAroundOk(st) == LET line == CurLine(st) IN st.p[1] < Len(line) /\ WordChar(line[st.p[1] + 1])
WordAround(st) ==
  LET line == CurLine(st) x == st.p[1]
      a == CHOOSE k \in 0..x : (\A j \in (k+1)..(x+1) : WordChar(line[j])) /\ (k = 0 \/ ~WordChar(line[k]))
      b == CHOOSE k \in x..(Len(line)-1) : (\A j \in (x+1)..(k+1) : WordChar(line[j]))
                                           /\ (k + 1 = Len(line) \/ ~WordChar(line[k + 2]))
  IN  [st EXCEPT !.t = << a, st.p[2] >>, !.p = << b, st.p[2] >>]

-----------------------------------------------------------------------------
(* cursor movements: the target position, equal to the current one when     *)
(* there is nothing further                                                 *)
\* the first char whose column is at least the wanted one, or the line end
CharAtCol(line, col) ==
  LET ks == {k \in 0..(Len(line)-1) : ColOf(line, k) >= col}
  IN  IF ks = {} THEN Len(line) ELSE Min(ks)
\* the char drawn at a column, or the line end
CharDrawnAt(line, col) ==
  LET ks == {k \in 1..Len(line) : ColOf(line, k) > col}
  IN  IF ks = {} THEN Len(line) ELSE Min(ks) - 1
Vertical(st, y) == << CharAtCol(LineAt(st, y), ColOf(CurLine(st), st.p[1])), y >>
Height(st) == st.a[4]
MoveNames == {"move_up", "move_down", "move_left", "move_right", "move_to_start", "move_to_end",
  "move_to_line_start", "move_to_line_end", "move_word_left", "move_word_right", "page_up", "page_down"}
Target(st, m) ==
  LET T == Flat(st.L) o == Cur(st) y == st.p[2] x == st.p[1] line == CurLine(st) last == NbLines(st) - 1 IN
  CASE m = "move_left" -> IF o = 0 THEN st.p ELSE PosAt(T, o - 1)
    [] m = "move_right" -> IF o = Len(T) THEN st.p ELSE PosAt(T, o + 1)
    [] m = "move_to_start" -> <<0, 0>>
    [] m = "move_to_end" -> PosAt(T, Len(T))
    [] m = "move_to_line_start" -> << 0, y >>
    [] m = "move_to_line_end" -> << Len(line), y >>
    [] m = "move_up" -> IF y = 0 THEN st.p ELSE Vertical(st, y - 1)
    [] m = "move_down" -> IF y = last THEN st.p ELSE Vertical(st, y + 1)
    [] m = "page_up" -> IF y = 0 \/ Height(st) = 0 THEN st.p ELSE Vertical(st, Monus(y, Height(st)))
    [] m = "page_down" -> IF y = last \/ Height(st) = 0 THEN st.p ELSE Vertical(st, Min2(y + Height(st), last))
    [] m = "move_word_left" -> IF x = 0 THEN st.p ELSE << WordLeftX(line, x), y >>
    [] m = "move_word_right" -> IF x = Len(line) THEN st.p ELSE << WordRightX(line, x), y >>

-----------------------------------------------------------------------------
(* the viewport *)
YScroll(st) == NbLines(st) > Height(st)
InnerWidth(st) == Monus(st.a[3], IF YScroll(st) THEN 1 ELSE 0)
\* a field may be too small to show anything of its text
HasRoom(st) == InnerWidth(st) > 0 /\ Height(st) > 0
ShownCW(st, c) == IF st.pw THEN 1 ELSE CW(c)
ShownWidth(st, line) == IF st.pw THEN Len(line) ELSE LineWidth(line)
ShownCol(st, line, x) == IF st.pw THEN x ELSE ColOf(line, x)
CursorCol(st) == ShownCol(st, CurLine(st), st.p[1])

FixY(st) == FieldY(st.sc[2], Height(st), NbLines(st), st.p[2], st.f)
FixX(st) == FieldX(st.sc[1], InnerWidth(st), ShownWidth(st, CurLine(st)), CursorCol(st), st.f)
FixScroll(st) == [st EXCEPT !.sc = << FixX(st), FixY(st) >>]

CursorVisible(st) ==
  /\ st.sc[2] <= st.p[2] /\ st.p[2] < st.sc[2] + Height(st)
  /\ CursorCol(st) < st.sc[1] + InnerWidth(st)
  /\ CursorCol(st) >= FirstSeen(st.sc[1], InnerWidth(st))
ScrollBounded(st) ==
  /\ st.sc[1] >= 0 /\ st.sc[2] >= 0
  /\ st.sc[2] + Height(st) <= Max2(NbLines(st), Height(st))
ScrollBoundedX(st) == st.sc[1] + InnerWidth(st) <= Max2(ShownWidth(st, CurLine(st)) + 1, InnerWidth(st))

-----------------------------------------------------------------------------
(* operations: Step(st, e) is the state after operation e and its result    *)
(* ("null" when the operation returns nothing)                              *)
Res(st, r) == [s |-> st, r |-> r]
Moved(st, m) == LET q == Target(st, m) IN
  IF q = st.p THEN Res(st, FALSE) ELSE Res(FixScroll([st EXCEPT !.p = q]), TRUE)
If(c, st, st2) == IF c THEN Res(FixScroll(st2), TRUE) ELSE Res(st, FALSE)

DelSel(st) == IF Wide(st) THEN Res(FixScroll(DelWide(st)), TRUE)
              ELSE If(CanDelBelow(st), st, DelBelow(st))

EditMethods == {"insert_new_line", "clear", "del_char_below", "del_char_left", "del_word_left",
  "del_word_right", "move_current_line_up", "move_current_line_down"}
Method(st, m) ==
  LET line == CurLine(st) x == st.p[1] y == st.p[2] IN
  CASE m \in MoveNames -> Moved(st, m)
    [] m = "copy_selection" -> Res(st, SelText(st))
    [] m = "cut_selection" -> Res(FixScroll(DelSel(st).s), SelText(st))
    [] m = "del_selection" -> DelSel(st)
    [] m = "insert_new_line" -> Res(FixScroll(InsertChar(st, NL)), TRUE)
    [] m = "clear" -> Res(FixScroll(Cleared(st)), "null")
    [] m = "del_char_below" -> If(CanDelBelow(st), st, DelBelow(st))
    [] m = "del_char_left" -> If(CanDelLeft(st), st, DelLeft(st))
    [] m = "del_word_left" ->
         IF x = 0 THEN Res(st, FALSE)
         ELSE Res(FixScroll(RemoveRange(st, Cur(st) - (x - WordLeftX(line, x)), Cur(st))), TRUE)
    [] m = "del_word_right" ->
         IF x < Len(line) THEN Res(FixScroll(DelWordRight(st)), TRUE)
         ELSE IF x > 0 THEN Res(FixScroll([st EXCEPT !.p = << x - 1, y >>]), TRUE)
         ELSE Res(st, FALSE)
    [] m = "move_current_line_up" -> IF y = 0 THEN Res(st, FALSE) ELSE Res(FixScroll(MoveLine(st, y - 1)), TRUE)
    [] m = "move_current_line_down" ->
         IF y + 1 = NbLines(st) THEN Res(st, FALSE) ELSE Res(FixScroll(MoveLine(st, y + 1)), TRUE)
    [] m = "select_word_around" -> IF WordAroundOk(st) THEN Res(FixScroll(WordAround(st)), TRUE) ELSE Res(st, FALSE)
    [] m = "scroll_up" -> IF st.sc[2] > 0 THEN Res([st EXCEPT !.sc = << @[1], @[2] - 1 >>], TRUE) ELSE Res(st, FALSE)
    [] m = "scroll_down" ->
         IF st.sc[2] + Height(st) < NbLines(st) THEN Res([st EXCEPT !.sc = << @[1], @[2] + 1 >>], TRUE) ELSE Res(st, FALSE)
    [] m = "set_mono_line" -> Res([st EXCEPT !.nk = {}], "null")

SetStr(st, s) == IF Flat(st.L) = s THEN st ELSE InsertStr(Cleared(st), s)
ReplaceSel(st, s) == InsertStr(IF Wide(st) THEN DelWide(st) ELSE NoSel(st), s)

\* keys -----------------------------------------------------------------
KeyMove == [home |-> "move_to_line_start", end |-> "move_to_line_end", up |-> "move_up", down |-> "move_down",
  left |-> "move_left", right |-> "move_right", pageup |-> "page_up", pagedown |-> "page_down"]
KeyCode(st, k, c, shift) ==
  CASE k = "backspace" -> IF Wide(st) THEN DelSel(st) ELSE If(CanDelLeft(st), NoSel(st), DelLeft(NoSel(st)))
    [] k = "delete" -> IF Wide(st) THEN DelSel(st) ELSE If(CanDelBelow(st), NoSel(st), DelBelow(NoSel(st)))
    [] k = "char" -> Res(FixScroll(InsertChar(IF Wide(st) THEN DelWide(st) ELSE NoSel(st), c)), TRUE)
    [] OTHER ->
       LET s1 == IF shift THEN (IF HasSel(st) THEN st ELSE [st EXCEPT !.t = st.p]) ELSE NoSel(st)
       IN  IF k \in DOMAIN KeyMove THEN Moved(s1, KeyMove[k]) ELSE Res(s1, FALSE)
KeyName(k, m) == IF m = "" THEN k ELSE m \o "-" \o k
Key(st, via, k, c, m) ==
  IF k = "two" THEN Res(st, FALSE) \* several keys at once
  ELSE IF via = "apply_keycode_event" THEN KeyCode(st, k, c, m = "shift")
  ELSE IF ~st.f THEN Res(st, FALSE)
  ELSE IF KeyName(k, m) \in st.nk
       THEN Res(FixScroll(InsertChar(IF Wide(st) THEN DelWide(st) ELSE NoSel(st), NL)), TRUE)
  ELSE IF m \in {"", "shift"} THEN KeyCode(st, k, c, m = "shift")
  ELSE Res(st, FALSE)

\* mouse ----------------------------------------------------------------
Inside(st, x, y) == /\ x >= st.a[1] /\ x < st.a[1] + st.a[3]
                    /\ y >= st.a[2] /\ y < st.a[2] + st.a[4]
\* the text position shown at a cell of the area
PosUnder(st, x, y) ==
  LET ty == Min2(y - st.a[2] + st.sc[2], NbLines(st) - 1)
      col == x - st.a[1] + st.sc[1]
      line == LineAt(st, ty)
      hidden == IF st.sc[1] > 0 /\ InnerWidth(st) > 4 THEN st.sc[1] + 1 ELSE st.sc[1]
      \* column of the first char drawn: a wide char isn't drawn when partly hidden
      first == ColOf(line, CharAtCol(line, hidden))
  IN  << IF st.pw THEN Min2(col, Len(line)) ELSE CharDrawnAt(line, col + Monus(first, hidden)), ty >>
Focus(st) == IF st.f THEN st ELSE FixScroll([st EXCEPT !.f = TRUE])
Click(st, x, y) ==
  IF ~Inside(st, x, y) THEN Res(st, FALSE)
  ELSE IF ~st.f THEN Res(Focus(st), TRUE)
  ELSE Res(FixScroll([st EXCEPT !.p = PosUnder(st, x, y)]), TRUE)
Mouse(st, k, x, y, m, dbl) ==
  IF ~Inside(st, x, y) THEN Res(st, FALSE)
  ELSE IF ~st.f THEN Res(IF k = "down" THEN Focus(st) ELSE st, TRUE)
  ELSE LET q == PosUnder(st, x, y)
           s1 == IF HasSel(st) THEN st ELSE [st EXCEPT !.t = st.p] IN
    CASE k = "down" -> Res(FixScroll([(IF m = "shift" THEN s1 ELSE NoSel(st)) EXCEPT !.p = q]), TRUE)
      [] k = "drag" -> Res(FixScroll([s1 EXCEPT !.p = q]), TRUE)
      [] k = "up" /\ dbl -> LET s2 == [st EXCEPT !.p = q]
                            IN  Res(FixScroll(IF WordAroundOk(s2) THEN WordAround(s2) ELSE s2), TRUE)
      [] k = "wheeldown" -> Res(Method(st, "scroll_down").s, TRUE)
      [] k = "wheelup" -> Res(Method(st, "scroll_up").s, TRUE)
      [] OTHER -> Res(st, TRUE)

Step(st, e) ==
  CASE e.o = "put_char" -> Res(FixScroll(InsertChar(st, e.c)), TRUE)
    [] e.o = "insert_str" -> Res(FixScroll(InsertStr(st, e.s_)), "null")
    [] e.o = "set_str" -> Res(FixScroll(SetStr(st, e.s_)), "null")
    [] e.o = "replace_selection" -> Res(FixScroll(ReplaceSel(st, e.s_)), "null")
    [] e.o = "is_content" -> Res(st, Flat(st.L) = e.s_)
    [] e.o = "set_focus" -> Res(IF e.b = st.f THEN st
                                ELSE IF e.b THEN FixScroll([st EXCEPT !.f = TRUE])
                                ELSE [st EXCEPT !.f = FALSE], "null")
    [] e.o = "set_pw" -> Res([st EXCEPT !.pw = e.b], "null")
    [] e.o = "set_area" -> Res(IF e.a = st.a THEN st ELSE FixScroll([st EXCEPT !.a = e.a]), "null")
    [] e.o = "change_area" ->
         LET a2 == << e.a[1], e.a[2], e.a[3], st.a[4] >>
         IN  Res(IF a2 = st.a THEN st ELSE FixScroll([st EXCEPT !.a = a2]), "null")
    [] e.o = "new_line_on" -> Res([st EXCEPT !.nk = @ \cup {e.k}], "null")
    [] e.o = "key" -> Key(st, e.via, e.k, e.c, e.m)
    [] e.o = "click" -> Click(st, e.x, e.y)
    [] e.o = "mouse" -> Mouse(st, e.k, e.x, e.y, e.m, e.b)
    [] e.o = "resize" -> Res(st, FALSE)
    [] OTHER -> Method(st, e.o)

-----------------------------------------------------------------------------
(* state properties *)
TypeOk(st) ==
  /\ Len(st.L) >= 1
  /\ PosOk(st.L, st.p)
  /\ st.t # <<>> => PosOk(st.L, st.t)
  /\ \A k \in 1..Len(st.L) : \A j \in 1..Len(st.L[k]) : st.L[k][j] \notin {10, 13, 8}

-----------------------------------------------------------------------------
(* rendering: each row is a sequence of characters (c) with their style (s):*)
(* "f" focused, "u" unfocused, "c" cursor and selection                     *)
ShownChar(st, c) == IF st.pw THEN 42 ELSE c
Row(c, s) == [c |-> c, s |-> s]
RowCat(r1, r2) == Row(r1.c \o r2.c, r1.s \o r2.s)
Base(st) == IF st.f THEN "f" ELSE "u"
\* one shown char: tabs are shown as blanks
Glyph(st, c, sty) == IF ShownChar(st, c) = TAB THEN Row(Rep(SP, TabWidth), Rep(sty, TabWidth))
                     ELSE Row(<< ShownChar(st, c) >>, << sty >>)
\* Row y of the text (0-based), w columns.  Also gives the cursor column (or -1).
TextRow(st, y, w0) ==
  LET line == LineAt(st, y)
      n == Len(line)
      left == st.sc[1] > 0 /\ w0 > 4
      w == IF left THEN w0 - 1 ELSE w0
      skip == IF left THEN st.sc[1] + 1 ELSE st.sc[1]
      \* first char shown: the first one starting at or after the skipped columns
      first == LET ks == {k \in 1..n : ShownCol(st, line, k - 1) >= skip} IN IF ks = {} THEN n + 1 ELSE Min(ks)
      At(k) == ShownCol(st, line, k - 1) - ShownCol(st, line, first - 1)  \* column where char k goes
      EndAt(k) == At(k) + ShownCW(st, line[k])
      \* the first char which can't be shown because of the width: the last column
      \* is reserved to an ellipsis when chars remain after it
      cut == LET ks == {k \in first..n : EndAt(k) > w \/ (EndAt(k) = w /\ k < n)} IN IF ks = {} THEN n + 1 ELSE Min(ks)
      sty(k) == IF st.f /\ InSel(st, k - 1, y) THEN "c" ELSE Base(st)
      pre == IF left THEN Row(<< ELL >>, << Base(st) >>) ELSE Row(<<>>, <<>>)
      body == FoldLeft(LAMBDA acc, k : RowCat(acc, Glyph(st, line[k], sty(k))), pre,
                       [j \in 1..(cut - first) |-> first + j - 1])
      used == IF cut > first THEN EndAt(cut - 1) ELSE 0
      withEll == IF cut <= n THEN RowCat(body, Row(<< ELL >>, << sty(cut) >>)) ELSE body
      used2 == IF cut <= n THEN used + 1 ELSE used
      atEnd == st.f /\ y = st.p[2] /\ st.p[1] = n /\ used2 < w
      withCur == IF atEnd THEN RowCat(withEll, Row(<< SP >>, << "c" >>)) ELSE withEll
      used3 == IF atEnd THEN used2 + 1 ELSE used2
      o == IF left THEN 1 ELSE 0
      curcol == IF ~(st.f /\ y = st.p[2]) THEN -1
                ELSE IF atEnd THEN o + used2
                ELSE IF st.p[1] + 1 \in first..Min2(cut, n) THEN o + (IF st.p[1] + 1 = cut THEN used ELSE At(st.p[1] + 1))
                ELSE -1
  IN  [row |-> RowCat(withCur, Row(Rep(SP, w - used3), Rep(Base(st), w - used3))), cur |-> curcol]
BlankRow(st, w) == [row |-> Row(Rep(SP, w), Rep(Base(st), w)), cur |-> -1]
RenderRow(st, j) ==
  LET w == InnerWidth(st) IN
  IF w = 0 THEN BlankRow(st, 0)
  ELSE IF j + st.sc[2] < NbLines(st) THEN TextRow(st, j + st.sc[2], w) ELSE BlankRow(st, w)
=============================================================================
