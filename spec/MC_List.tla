------------------------------ MODULE MC_List -------------------------------
(* Exhaustive exploration of the list view on small lists                   *)
EXTENDS List, TLC
CONSTANTS MaxRows, Heights, Keys, Groups
VARIABLE st
Cols == << [t |-> << 65 >>, mi |-> 1, ma |-> 2, al |-> "l", sty |-> "c0"],
           [t |-> << 65 >>, mi |-> 1, ma |-> 1, al |-> "r", sty |-> "c0"],
           [t |-> << 66 >>, mi |-> 2, ma |-> 9, al |-> "c", sty |-> "c1"] >>
Row(id, k, g) == [id |-> id, k |-> k, g |-> g, c |-> << <<97>>, <<98, 99>>, <<>> >>]
Empty(h) == [rows |-> <<>>, flt |-> 0, ord |-> 0, sel |-> 0, sc |-> 0, a |-> <<0, 0, 12, h>>, w |-> <<1, 1, 2>>, cols |-> Cols]
NextId(t) == Len(t.rows) + 1
Events(t) ==
  (IF Len(t.rows) < MaxRows THEN {[o |-> "add_row", row |-> Row(NextId(t), k, g)] : k \in Keys, g \in Groups} ELSE {})
  \cup {[o |-> "sort", n |-> n] : n \in {1, 2}}
  \cup {[o |-> "set_filter", n |-> n] : n \in {1, 2, 3}}
  \cup {[o |-> "try_scroll_lines", n |-> n] : n \in {-2, -1, 0, 1, 3}}
  \cup {[o |-> "try_scroll_pages", n |-> n] : n \in {-1, 1}}
  \cup {[o |-> x] : x \in {"clear_rows", "remove_filter", "scroll_to_bottom", "try_select_next", "try_select_prev",
                           "select_first_line", "select_last_line", "make_selection_visible", "unselect"}}
  \cup {[o |-> "resize", a |-> <<0, 0, w, h>>] : w \in {7, 12}, h \in Heights}
Init == \E h \in Heights : st = Empty(h)
Next == \E e \in Events(st) : st' = Step(st, e)

SelectOps == {"try_select_next", "try_select_prev", "select_first_line", "select_last_line"}
ScrollOps == {"try_scroll_lines", "try_scroll_pages"}
SelPos(t) == IndexOf(Shown(t), t.sel)

\* properties of states
Bounded == 0 <= st.sc /\ st.sc <= MaxScroll(st)
SelExists == st.sel = 0 \/ IndexOf(st.rows, st.sel) > 0
\* next then previous comes back
NextPrev == SelPos(st) > 0 => Step(Step(st, [o |-> "try_select_next"]), [o |-> "try_select_prev"]).sel = st.sel
Aligned == Len(TitleRow(st).c) = TableWidth(st) /\ Len(RuleRow(st).c) = TableWidth(st)
           /\ \A k \in 1..Len(st.rows) : Len(BodyRow(st, st.rows[k]).c) = TableWidth(st)

\* properties of transitions
Full(prev, ev, s) == NbShown(s) <= Body(s) /\ ev.o \in (SelectOps \cup ScrollOps \cup {"resize"}) => s.sc = 0 \/ s.sc = prev.sc
SelShown(prev, ev, s) == ev.o \in SelectOps /\ s.sel # 0 /\ NbShown(s) > 0 => SelPos(s) > 0
SelVisible(prev, ev, s) == ev.o \in SelectOps \cup ScrollOps \cup {"make_selection_visible"} /\ SelPos(s) > 0 /\ NbShown(s) > Body(s)
              => s.sc < SelPos(s) /\ SelPos(s) <= s.sc + Body(s)
KeepsSel(prev, ev, s) == ev.o \notin SelectOps \cup {"clear_rows", "unselect"} => s.sel = prev.sel
\* one step of the cyclic order of the displayed rows
Cyclic(prev, ev, s) == ev.o \in {"try_select_next", "try_select_prev"} /\ SelPos(prev) > 0 =>
   LET d == NbShown(s) IN
   SelPos(s) = IF ev.o = "try_select_next" THEN (SelPos(prev) % d) + 1 ELSE ((SelPos(prev) + d - 2) % d) + 1
KeepsRows(prev, ev, s) == ev.o # "clear_rows" =>
   LET new == IF ev.o = "add_row" THEN {ev.row} ELSE {} IN
   {s.rows[k] : k \in 1..Len(s.rows)} = {prev.rows[k] : k \in 1..Len(prev.rows)} \cup new
RowsSorted(prev, ev, s) == ev.o = "add_row" /\ s.ord # 0 => \A i, j \in 1..Len(s.rows) : i < j => ~Before(s.ord, s.rows[j], s.rows[i])
Stick(prev, ev, s) == ev.o = "add_row" /\ s.ord = 0 /\ ShowsBottom(prev)
   => ShowsBottom(s) /\ (NbShown(s) > Body(s) => s.sc + Body(s) = NbShown(s))
ScrollExact(prev, ev, s) == ev.o = "try_scroll_lines" /\ s.sel = 0 =>
   s.sc = Max2(0, IF ev.n < 0 THEN prev.sc + ev.n ELSE Min2(prev.sc + ev.n, MaxScroll(s)))
WidthsOk(prev, ev, s) == ev.o = "resize" =>
   /\ \A k \in 1..Len(s.cols) : s.cols[k].mi <= s.w[k] /\ s.w[k] <= s.cols[k].ma
   /\ TableWidth(s) + 1 <= s.a[3]
Transitions == \A ev \in Events(st) : LET s == Step(st, ev) IN
   /\ Full(st, ev, s) /\ SelShown(st, ev, s) /\ SelVisible(st, ev, s) /\ KeepsSel(st, ev, s) /\ Cyclic(st, ev, s)
   /\ KeepsRows(st, ev, s) /\ RowsSorted(st, ev, s) /\ Stick(st, ev, s) /\ ScrollExact(st, ev, s) /\ WidthsOk(st, ev, s)
=============================================================================
