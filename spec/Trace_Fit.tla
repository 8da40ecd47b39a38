------------------------------ MODULE Trace_Fit -----------------------------
(* Validates the fitting, extension and filling of composites (C17).        *)
EXTENDS Fit, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

\* st: the composite, as [kind, d, s, sp]
Fits(e) == e.how \in {"fit", "fill"}
Extends(e) == e.how \in {"extend", "fill"}
Judge(t, c, e) ==
  IF e.p THEN "panic"
  ELSE
  LET S == Items(c.s)
      R == Items(e.r.s)
      pre == Prefix(c.kind, c.d, t.mode)
      room == Monus(e.w, pre)
      sp1 == IF Fits(e) THEN FitSpacing(c.sp, e.w) ELSE c.sp
      sp == IF Extends(e) THEN ExtendSpacing(sp1, e.r.vl, e.w, e.al) ELSE sp1
      vd == IF Fits(e) THEN FitVerdict(S, R, room, e.al) ELSE IF e.r.s = c.s THEN "ok" ELSE "extending changed the text"
      shown(m) == CompositeCells(t.sk, t.mode, c.kind, c.d, e.r.s, e.r.sp.w, e.r.sp.al, -1, FALSE, m)
      cells == shown(TRUE)
  IN
  IF i = 0 /\ t.init.vl # pre + CompsWidth(c.s) THEN "width of the composite"
  ELSE IF e.r.kind # c.kind \/ e.r.d # c.d THEN "kind"
  ELSE IF e.r.vl # pre + CompsWidth(e.r.s) THEN "computed width"
  ELSE IF vd # "ok" THEN vd
  ELSE IF e.r.sp # sp THEN "padding"
  ELSE IF e.how = "fill" /\ CellsWidth(shown(FALSE)) # e.w THEN "not filled"
  ELSE IF e.how = "fill" /\ ~e.same THEN "write_composite_fill"
  ELSE IF e.c # [j \in 1..Len(cells) |-> cells[j].c] THEN "text displayed"
  ELSE "ok"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = Traces[tr].init
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET e == Traces[tr].ev[i + 1]
     IN /\ v' = Judge(Traces[tr], st, e)
        /\ st' = IF e.p THEN st ELSE [kind |-> e.r.kind, d |-> e.r.d, s |-> e.r.s, sp |-> e.r.sp]
Accepted == v = "ok"
=============================================================================
