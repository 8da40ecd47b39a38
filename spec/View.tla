-------------------------------- MODULE View --------------------------------
(* A scrollable text in an area.                                            *)
(*   n  : height of the content (formatted lines)                           *)
(*   h  : height of the area                                                *)
(*   w  : width of the area (a change of width formats the text again)      *)
(*   sc : number of lines hidden above                                      *)
EXTENDS Scrollbar, Sequences

\* @typeAlias: view = { n: Int, h: Int, w: Int, sc: Int, bar: Bool };
\* @typeAlias: viewEvent = { o: Str, n: Int, w: Int, h: Int, b: Bool, k: Str, m: Str };
ViewTypes == TRUE

\* @type: ($view) => Int;
Bottom(s) == Monus(s.n, s.h)
\* @type: ($view, Int) => $view;
Clamp(s, k) == [s EXCEPT !.sc = Max2(0, Min2(k, Bottom(s)))]
\* @type: ($view, Int) => { s: $view, r: Bool };
By(s, d) == LET t == Clamp(s, s.sc + d) IN [s |-> t, r |-> t.sc # s.sc]

\* pages may be fractional (given in 256th): lines are rounded away from 0
PageUnit == 256
Abs(x) == IF x < 0 THEN -x ELSE x
\* @type: ($view, Int) => Int;
PageLines(s, parts) ==
  LET m == Abs(parts) * s.h
      l == (m \div PageUnit) + (IF m % PageUnit = 0 THEN 0 ELSE 1)
  IN IF parts < 0 THEN -l ELSE l

\* @type: ($view, Str) => Int;
KeyDelta(s, k) == CASE k = "up" -> -1 [] k = "down" -> 1 [] k = "pageup" -> -s.h [] k = "pagedown" -> s.h [] OTHER -> 0

\* result: [s |-> next state, r |-> whether the position changed]
\* @type: ($view, $viewEvent) => { s: $view, r: Bool };
Step(s, e) ==
  CASE e.o = "set_scroll" -> LET t == Clamp(s, e.n) IN [s |-> t, r |-> t.sc # s.sc]
    [] e.o = "try_scroll_lines" -> By(s, e.n)
    [] e.o = "try_scroll_pages" -> By(s, PageLines(s, e.n))
    [] e.o = "line_up" -> By(s, -1)
    [] e.o = "line_down" -> By(s, 1)
    [] e.o = "page_up" -> By(s, -s.h)
    [] e.o = "page_down" -> By(s, s.h)
    [] e.o = "key" -> IF e.m = "" THEN By(s, KeyDelta(s, e.k)) ELSE [s |-> s, r |-> FALSE]
    \* e.n: height of the content formatted for the new width
    [] e.o = "resize" ->
         LET t == [s EXCEPT !.w = e.w, !.h = e.h, !.n = e.n, !.sc = IF e.w # s.w THEN 0 ELSE s.sc]
             u == Clamp(t, t.sc)
         IN [s |-> u, r |-> u.sc # s.sc]
    [] e.o = "show_scrollbar" -> [s |-> [s EXCEPT !.bar = e.b], r |-> FALSE]

\* @type: ($view) => Bool;
HasBar(s) == s.bar /\ Present(s.n, s.h)

\* The rows drawn: `lines` are the rows of the formatted lines when drawn
\* alone in the text's width, `blank` an empty row of the same width.
\* @type: ($view, Seq(Seq(Int)), Seq(Int)) => (Int -> Seq(Int));
Window(s, lines, blank) ==
  [j \in 1..s.h |-> IF s.sc + j <= Len(lines) THEN lines[s.sc + j] ELSE blank]
=============================================================================
