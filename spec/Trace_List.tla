----------------------------- MODULE Trace_List -----------------------------
(* Validates histories recorded from the real ListView against List.tla.    *)
EXTENDS List, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

InitState(t) == [rows |-> <<>>, flt |-> 0, ord |-> 0, sel |-> 0, sc |-> 0, a |-> t.a,
                 w |-> [k \in 1..Len(t.cols) |-> t.cols[k].mi], cols |-> t.cols]

\* the rows shown by a very tall probe area tell the scroll
ObsScroll(e) == e.d - Len(e.tall)

Selecting == {"try_select_next", "try_select_prev", "select_first_line", "select_last_line"}
SelPos(s) == IndexOf(Shown(s), s.sel)

RowIs(o, x, s) == \* the drawn row starts with x
  Len(o.c) >= Len(x.c) /\ Take(o.c, Len(x.c)) = x.c /\ Take(o.s, Len(x.s)) = x.s
UntouchedAfter(o, n, upto) == \A k \in (n+1)..upto : o.c[k] = 9618 \/ o.c[k] = SP
DrawOk(s, e) ==
  LET tw == TableWidth(s)
      sh == Shown(s)
      bar == HasBar(s)
      W == s.a[3]
      inBar(y) == e.bar[1] <= y /\ y <= e.bar[2]
  IN
  /\ e.out = 0
  /\ Len(e.rows) = s.a[4]
  /\ RowIs(e.rows[1], TitleRow(s), s)
  /\ RowIs(e.rows[2], RuleRow(s), s)
  /\ \A j \in 1..2 : UntouchedAfter(e.rows[j], tw, W)
  /\ \A j \in 1..Body(s) :
       LET o == e.rows[j + 2] IN
       IF s.sc + j <= Len(sh) THEN RowIs(o, BodyRow(s, sh[s.sc + j]), s) /\ UntouchedAfter(o, tw, W - 1)
       ELSE \A k \in 1..(W-1) : o.c[k] = SP
  /\ bar = (e.bar # <<>>)
  /\ bar => GoodThumb(<< e.bar[1] - s.a[2] - 2, e.bar[2] - s.a[2] - 2 >>, s.sc, NbShown(s), Body(s))
  /\ \A j \in 1..Body(s) :
       LET o == e.rows[j + 2]
           y == s.a[2] + 1 + j
       IN IF bar THEN << o.c[W], o.s[W] >> = IF inBar(y) THEN << 35, "th" >> ELSE << 46, "tr" >>
          ELSE tw = W \/ o.c[W] \in {9618, SP}

Judge(s, e) ==
  IF e.p THEN "panic"
  ELSE IF e.o = "tiny" THEN "ok"
  ELSE
  LET n == Step(s, e)
      osc == ObsScroll(e)
  IN
  CASE Prop = "C08" ->
        IF e.sel # n.sel \/ e.hs # (n.sel # 0) THEN "selected row"
        ELSE IF e.t # Len(n.rows) \/ e.d # NbShown(n) THEN "row counts"
        ELSE IF e.tall # Drop(Ids(Shown(n)), osc) THEN "rows"
        ELSE "ok"
    [] Prop = "C09" ->
        IF NbShown(n) > 0 /\ osc # n.sc THEN "scroll"
        ELSE IF e.bot # ShowsBottom(n) THEN "shows bottom"
        ELSE IF e.tb # Body(n) THEN "height of the body"
        ELSE IF e.o \in Selecting /\ SelPos(n) > 0
                /\ ~(osc < SelPos(n) /\ SelPos(n) <= osc + Body(n)) /\ NbShown(n) > Body(n) THEN "selection hidden"
        ELSE "ok"
    [] Prop = "C10" ->
        IF DrawOk([n EXCEPT !.sel = e.sel, !.sc = IF e.d = 0 THEN n.sc ELSE osc], e) THEN "ok" ELSE "display"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = InitState(Traces[tr])
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET e == Traces[tr].ev[i + 1]
         n == Step(st, e)
     IN  /\ v' = Judge(st, e)
         /\ st' = IF e.p \/ e.o = "tiny" \/ v' # "ok" THEN st ELSE [n EXCEPT !.sel = e.sel, !.sc = IF e.d = 0 THEN n.sc ELSE ObsScroll(e)]
Accepted == v = "ok"
=============================================================================
