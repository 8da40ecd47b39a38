------------------------------- MODULE MC_View ------------------------------
(* Exhaustive exploration of text views and of the scrollbar thumbs         *)
EXTENDS Chars, View, TLC
CONSTANTS MaxContent, MaxHeight
VARIABLE st
Events(s) ==
  {[o |-> "set_scroll", n |-> n] : n \in 0..(MaxContent + 2)}
  \cup {[o |-> "try_scroll_lines", n |-> n] : n \in (-MaxContent - 1)..(MaxContent + 1)}
  \cup {[o |-> "try_scroll_pages", n |-> n] : n \in {k * 64 : k \in -8..8} \cup {-257, -1, 1, 255, 257}}
  \cup {[o |-> x] : x \in {"line_up", "line_down", "page_up", "page_down"}}
  \cup {[o |-> "key", k |-> k, m |-> m] : k \in {"up", "down", "pageup", "pagedown", "home"}, m \in {"", "ctrl"}}
  \cup {[o |-> "resize", w |-> w, h |-> h, n |-> IF w = s.w THEN s.n ELSE n] : w \in {10, 11}, h \in 1..MaxHeight, n \in 0..MaxContent}
Init == \E n \in 0..MaxContent, h \in 1..MaxHeight : st = [n |-> n, h |-> h, w |-> 10, sc |-> 0, bar |-> TRUE]
Next == \E e \in Events(st) : st' = Step(st, e).s
Inverse1(s, e, f) == LET a == Step(s, e) IN a.r /\ Step(a.s, f).s.sc = s.sc

\* the scroll is always valid, and the last window is full
Bounded == 0 <= st.sc /\ st.sc <= Bottom(st) /\ (st.n > st.h => st.sc + st.h <= st.n)
Transitions == \A e \in Events(st) : LET a == Step(st, e) IN
   /\ a.r = (a.s.sc # st.sc)
   /\ e.o = "try_scroll_lines" /\ st.sc + e.n \in 0..Bottom(st) => a.s.sc = st.sc + e.n
   /\ e.o = "try_scroll_lines" /\ e.n > 0 => a.s.sc >= st.sc
   /\ e.o = "page_down" /\ a.r => a.s.sc - st.sc <= st.h
   /\ e.o = "resize" /\ e.w = st.w /\ st.sc + e.h <= st.n => a.s.sc = st.sc
UpDown == st.sc > 0 => Step(Step(st, [o |-> "line_up"]).s, [o |-> "line_down"]).s = st
\* every line can be reached, going down page by page
NoSkip == LET a == Step(st, [o |-> "page_down"]).s IN a.sc <= st.sc + st.h

\* thumbs
Thumbs == st.n > st.h =>
   /\ \A s \in 0..(st.n - st.h + 1) : GoodThumb(Thumb(s, st.n, st.h), s, st.n, st.h)
   /\ \A s \in 0..(st.n - st.h) :
        LET t == Thumb(s, st.n, st.h)
            u == Thumb(s + 1, st.n, st.h)
        IN t[1] <= u[1] /\ t[2] <= u[2]
   /\ LET len == {Thumb(s, st.n, st.h)[2] - Thumb(s, st.n, st.h)[1] : s \in 0..(st.n - st.h)}
      IN \A x \in len, y \in len : x - y <= 1
=============================================================================
