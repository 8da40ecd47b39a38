----------------------------- MODULE Trace_View -----------------------------
(* Validates histories recorded from the real TextView and MadView against  *)
(* View.tla.                                                                *)
EXTENDS Chars, View, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

\* x, y: position of the area; tb: the rows of the lines drawn alone, as
\* identifiers (equal identifiers are equal rows), in the whole width (full)
\* or with the last column left for the scrollbar (narrow)
InitState(t) == [n |-> t.n, w |-> t.w, h |-> t.h, sc |-> 0, bar |-> TRUE, y |-> t.y, k |-> 0]

TableOf(t, k) == IF k = 0 THEN [full |-> t.full, narrow |-> t.narrow, bf |-> t.bf, bn |-> t.bn] ELSE t.ev[k].tb

Next1(s, e, j) ==
  IF e.o = "write_in_area" THEN [s |-> s, r |-> FALSE]
  ELSE IF e.o = "resize" THEN
    LET u == Step(s, e) IN [s |-> [u.s EXCEPT !.y = e.y, !.k = j], r |-> u.r]
  ELSE Step(s, e)

Str(b) == IF b THEN "true" ELSE "false"

DrawOk(t, s, e) ==
  LET tb == TableOf(t, s.k)
      d == IF e.o = "write_in_area" THEN [s EXCEPT !.sc = 0, !.bar = FALSE] ELSE s
      bar == HasBar(d)
      th == Thumb(d.sc, d.n, d.h)
      onThumb(j) == e.last[j] = "th"
      tops == {j \in 1..d.h : onThumb(j)}
      a == (CHOOSE j \in tops : \A k \in tops : j <= k) - 1
      b == (CHOOSE j \in tops : \A k \in tops : j >= k) - 1
  IN
  /\ e.bad = 0 /\ e.out = 0
  /\ Len(e.full) = d.h
  /\ IF bar
     THEN /\ e.narrow = Window(d, tb.narrow, tb.bn)
          /\ \A j \in 1..d.h : e.last[j] \in {"th", "tr"}
          /\ tops # {} /\ b - a + 1 = Cardinality(tops)
          /\ GoodThumb(<< a, b >>, d.sc, d.n, d.h)
     ELSE e.full = Window(d, tb.full, tb.bf)

Judge(t, s, e, j) ==
  IF e.p THEN "panic"
  \* areas too small for the text: only the bounds of the scroll
  ELSE IF e.o = "tiny" THEN IF e.bound THEN "ok" ELSE "scroll in a tiny area"
  ELSE
  LET u == Next1(s, e, j)
      n == u.s
  IN
  CASE Prop = "C11" ->
        IF e.sc # n.sc THEN "scroll"
        ELSE IF e.r # "" /\ e.r # Str(u.r) THEN "reported change"
        ELSE IF e.num # -1 /\ e.num # n.sc THEN "returned scroll"
        ELSE IF e.ch # -1 /\ e.ch # n.n THEN "content height"
        ELSE IF e.bar # << -1 >> /\ (e.bar # <<>>) # HasBar(n) THEN "scrollbar presence"
        ELSE IF e.bar # << -1 >> /\ e.bar # <<>> /\ ~GoodThumb(<< e.bar[1] - n.y, e.bar[2] - n.y >>, n.sc, n.n, n.h) THEN "thumb"
        ELSE "ok"
    [] Prop = "C12" -> IF DrawOk(t, [n EXCEPT !.sc = e.sc], e) THEN "ok" ELSE "display"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = InitState(Traces[tr])
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET t == Traces[tr]
         e == t.ev[i + 1]
     IN  /\ v' = Judge(t, st, e, i + 1)
         /\ st' = IF v' # "ok" \/ e.o = "tiny" THEN st ELSE [Next1(st, e, i + 1).s EXCEPT !.sc = e.sc]
Accepted == v = "ok"
=============================================================================
