------------------------------ MODULE Ind_View ------------------------------
(* The scrolls of the text views, whatever the sizes and the amounts: Sound *)
(* is inductive (symbolic check, by Apalache).                              *)
EXTENDS View
VARIABLES
  \* @type: $view;
  s,
  \* @type: $view;
  old,
  \* @type: $viewEvent;
  e,
  \* @type: Bool;
  r

Ops == {"set_scroll", "try_scroll_lines", "try_scroll_pages", "line_up", "line_down", "page_up", "page_down", "key", "resize", "show_scrollbar"}
Sound == s.n >= 0 /\ s.h >= 0 /\ s.w >= 0 /\ 0 <= s.sc /\ s.sc <= Bottom(s)
NoEvent == [o |-> "", n |-> 0, w |-> 0, h |-> 0, b |-> FALSE, k |-> "", m |-> ""]
Init ==
  /\ \E n \in Nat, h \in Nat, w \in Nat, sc \in Nat, b \in BOOLEAN : s = [n |-> n, h |-> h, w |-> w, sc |-> sc, bar |-> b]
  /\ Sound
  /\ old = s /\ e = NoEvent /\ r = FALSE
Next ==
  \E o \in Ops, n \in Int, w \in Nat, h \in Nat, b \in BOOLEAN, k \in {"up", "down", "pageup", "pagedown", "home"}, m \in {"", "ctrl"} :
    /\ o = "resize" => n >= 0
    /\ e' = [o |-> o, n |-> n, w |-> w, h |-> h, b |-> b, k |-> k, m |-> m]
    /\ s' = Step(s, e').s
    /\ r' = Step(s, e').r
    /\ old' = s
Reports == r = (s.sc # old.sc)
\* amounts asked are done, up to the bounds
Amount(d) == s.sc = Max2(0, Min2(old.sc + d, Bottom(old)))
Exact ==
  /\ e.o = "try_scroll_lines" => Amount(e.n)
  /\ e.o = "set_scroll" => s.sc = Max2(0, Min2(e.n, Bottom(old)))
  /\ e.o = "page_down" \/ (e.o = "key" /\ e.m = "" /\ e.k = "pagedown") => Amount(old.h)
  /\ e.o = "page_up" => Amount(-old.h)
  /\ e.o = "line_down" => Amount(1)
  /\ e.o = "line_up" => Amount(-1)
  \* a part of a page is at least a line
  /\ e.o = "try_scroll_pages" /\ e.n > 0 /\ old.h > 0 /\ old.sc < Bottom(old) => s.sc > old.sc
  /\ e.o = "try_scroll_pages" /\ e.n < 0 /\ old.h > 0 /\ old.sc > 0 => s.sc < old.sc
  /\ e.o = "key" /\ (e.m # "" \/ e.k = "home") => s = old
  /\ e.o = "resize" /\ e.w = old.w /\ old.sc + e.h <= e.n => s.sc = old.sc
Proved == Sound /\ Reports /\ Exact
=============================================================================
