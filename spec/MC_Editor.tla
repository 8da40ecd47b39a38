----------------------------- MODULE MC_Editor -----------------------------
(* Exhaustive check of the editor design on all small texts: every state    *)
(* reachable by any operation, every operation in each of them.             *)
EXTENDS Editor, TLC
CONSTANTS MaxLen, Areas, Alphabet
VARIABLE st
AreasQuick == {<<1,1,1,1>>, <<1,1,2,1>>, <<1,1,6,2>>}
AreasWide == {<<1,1,3,1>>, <<1,1,4,2>>, <<1,1,6,1>>}
AreasThorough == {<<1,1,1,1>>, <<1,1,2,1>>, <<1,1,3,2>>, <<1,1,6,2>>, <<1,1,5,1>>, <<1,1,4,5>>}

MethodOps == {[o |-> m] : m \in MoveNames \cup EditMethods \cup {"copy_selection", "cut_selection",
   "del_selection", "select_word_around", "scroll_up", "scroll_down"}}
KeyOps == {[o |-> "key", via |-> "apply_event", k |-> k, c |-> 97, m |-> m] :
            k \in DOMAIN KeyMove \cup {"backspace", "delete", "esc"}, m \in {"", "shift"}}
          \cup {[o |-> "key", via |-> "apply_event", k |-> "enter", c |-> 97, m |-> ""]}
CharOps == {[o |-> "key", via |-> "apply_event", k |-> "char", c |-> c, m |-> ""] : c \in Alphabet \ {NL}}
           \cup {[o |-> "put_char", c |-> c] : c \in Alphabet}
StrOps == {[o |-> n, s_ |-> s] : n \in {"insert_str", "set_str", "replace_selection"}, s \in {<<>>, <<97, NL, 32>>}}
MouseOps == {[o |-> "mouse", k |-> k, x |-> x, y |-> y, m |-> "", b |-> b] :
              k \in {"down", "drag", "up"}, x \in {1, 3}, y \in {1, 2}, b \in {TRUE}}
FocusOps == {[o |-> "set_focus", b |-> b] : b \in BOOLEAN}
Ops == MethodOps \cup KeyOps \cup CharOps \cup StrOps \cup MouseOps \cup FocusOps

Init == \E a \in Areas : st = [L |-> << <<>> >>, p |-> <<0,0>>, t |-> <<>>, sc |-> <<0,0>>, f |-> TRUE,
                              a |-> a, pw |-> FALSE, nk |-> {"enter"}]
Next == \E e \in Ops : st' = Step(st, e).s /\ TextLen(st') <= MaxLen

Valid == TypeOk(st)
Bounded == ScrollBounded(st)
TextOf(s) == Flat(s.L)

\* moving, selecting, scrolling, focusing and copying never change the text;
\* a movement reports TRUE exactly when the cursor moved
MovesOnlyMove ==
  \A m \in MoveNames : LET r == Method(st, m) IN
     /\ r.s.L = st.L /\ (r.r <=> r.s.p # st.p) /\ r.s.t = st.t
\* left/right are inverse of each other, char by char
LeftRight ==
  /\ LET r == Method(st, "move_right") IN r.r => Cur(r.s) = Cur(st) + 1 /\ Method(r.s, "move_left").s.p = st.p
  /\ LET r == Method(st, "move_left") IN r.r => Cur(r.s) = Cur(st) - 1
\* cut returns what copy would return, removes exactly it, and pasting restores
CutPaste ==
  LET c == Method(st, "cut_selection") k == Method(st, "copy_selection")
      back == Step(c.s, [o |-> "replace_selection", s_ |-> c.r]).s
  IN  /\ c.r = k.r /\ k.s = st
      /\ Len(TextOf(c.s)) = Len(TextOf(st)) - Len(c.r)
      /\ TextOf(back) = TextOf(st)
\* typing inserts one char at the cursor, backspace undoes it
TypeUndo ==
  ~Wide(st) => \A c \in Alphabet \ {NL} :
     LET a == KeyCode(st, "char", c, FALSE).s b == KeyCode(a, "backspace", 32, FALSE).s
     IN  TextOf(b) = TextOf(st) /\ b.p = st.p /\ a.p = << st.p[1] + 1, st.p[2] >>
EnterUndo ==
  LET a == Method(st, "insert_new_line").s b == Method(a, "del_char_left").s
  IN  TextOf(b) = TextOf(st) /\ b.p = st.p
DeleteIsRightBackspace ==
  LET a == Method(st, "del_char_below") r == Method(st, "move_right") b == Method(r.s, "del_char_left")
  IN  a.r = r.r /\ (a.r => TextOf(a.s) = TextOf(b.s) /\ a.s.p = st.p)
\* moving lines permutes them and keeps the cursor on its char
LinesMove ==
  \A m \in {"move_current_line_up", "move_current_line_down"} :
    LET r == Method(st, m) IN
      /\ r.r => CurLine(r.s) = CurLine(st) /\ r.s.p[1] = st.p[1]
      /\ Len(TextOf(r.s)) = Len(TextOf(st))
\* deletions remove a contiguous range next to the cursor
DelWords ==
  \A m \in {"del_word_left", "del_word_right", "del_char_left", "del_char_below"} :
    LET r == Method(st, m) T == TextOf(st) U == TextOf(r.s) n == Len(T) - Len(U) o == Cur(st) IN
      /\ n >= 0
      /\ \/ U = SubSeq(T, 1, o) \o SubSeq(T, o + n + 1, Len(T))
         \/ o >= n /\ U = SubSeq(T, 1, o - n) \o SubSeq(T, o + 1, Len(T))
\* whatever is done, if reported as a change (scrolling excepted), then the
\* cursor of a focused field is visible
Scrolls(e) == e.o \in {"scroll_up", "scroll_down"}
Unconditional == {"insert_str", "set_str", "replace_selection", "clear"}
Visible ==
  st.f => \A e \in Ops : LET r == Step(st, e) IN
     (r.s.f /\ HasRoom(r.s) /\ ~Scrolls(e) /\ e.o \notin {"cut_selection", "set_focus"} /\ (IF e.o \in Unconditional THEN TRUE ELSE e.o \notin {"mouse", "copy_selection"} /\ r.r))
       => CursorVisible(r.s) /\ ScrollBoundedX(r.s)
\* an unfocused field ignores keys
Ignores == ~st.f => \A e \in KeyOps : Step(st, e) = Res(st, FALSE)
\* a click puts the cursor on what is shown in the clicked cell: the row before this
\* cell holds the chars before the cursor
ClickShown ==
  st.f => \A x \in st.a[1]..(st.a[1]+st.a[3]-1), y \in st.a[2]..(st.a[2]+st.a[4]-1) :
     LET r == Click(st, x, y) row == RenderRow(st, y - st.a[2]).row
         ks == {k \in 1..Len(row.c) : TextWidth(SubSeq(row.c, 1, k)) > x - st.a[1]}
         shown == row.c[Min(ks)]
         ln == CurLine(r.s) px == r.s.p[1]
     IN  r.r /\ (x - st.a[1] < InnerWidth(st) /\ shown \notin {SP, ELL} =>
                  px < Len(ln) /\ ln[px + 1] = shown)
\* rendering shows exactly one row per line of the area, each of the inner width,
\* and the cursor (when the selection isn't wide) in exactly one cell
Shown ==
  LET rows == [j \in 1..Height(st) |-> RenderRow(st, j - 1)]
      cells == {<<j, k>> \in (1..Height(st)) \X (1..2 * InnerWidth(st) + TextLen(st)) : k <= Len(rows[j].row.s)}
  IN  /\ \A j \in 1..Height(st) : TextWidth(rows[j].row.c) = InnerWidth(st)
      /\ (st.f /\ ~Wide(st) /\ CursorVisible(st)) =>
           Cardinality({jk \in cells : rows[jk[1]].row.s[jk[2]] = "c"}) = 1
=============================================================================
