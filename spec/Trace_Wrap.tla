----------------------------- MODULE Trace_Wrap -----------------------------
(* Validates the wrapping done by the real code against Wrap.tla.           *)
EXTENDS Wrap, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

HasWide(S) == \E j \in 1..Len(S) : Width(S[j].c) > 1
Avail(e) == LET m == Margins(e.ml, e.mr, e.w) IN e.w - m[1] - m[2]

\* widths below 3: an error telling the width left, unless the line fits
Narrow(t, e) ==
  LET m == Margins(e.ml, e.mr, e.w)
      total == Prefix(e.kind, e.d, t.mode) + WidthOf(Flat(e.s))
  IN IF e.comp # "" /\ e.comp # ToString(e.w) THEN "wrapped in less than 3 columns"
     ELSE IF total + m[1] + m[2] <= e.w THEN (IF e.lines = "same" THEN "ok" ELSE "a fitting line was changed")
     ELSE IF e.lines = ToString(e.w - m[1] - m[2]) THEN "ok" ELSE "wrapped in less than 3 columns"

Judge(t, e) ==
  IF e.p THEN "panic"
  ELSE IF e.how = "whole" THEN (IF e.nl = e.sum THEN "ok" ELSE "the lines of the text aren't the ones of its parts")
  ELSE IF e.how = "narrow" THEN Narrow(t, e)
  ELSE
  LET S == Flat(e.s)
      avail == Avail(e)
      first == Prefix(e.kind, e.d, t.mode)
      fk == FollowKind(e.kind)
      room == Monus(avail, first)
      X == [k \in 1..Len(e.lines) |-> Flat(e.lines[k].s)]
      n == Len(X)
      total == first + WidthOf(S)
      domain == room >= IF HasWide(S) THEN 2 ELSE 1
      LineWidth(k) == Prefix(e.lines[k].kind, e.lines[k].d, t.mode) + WidthOf(X[k])
  IN
  CASE Prop = "C14" ->
        IF n = 0 THEN "no line"
        ELSE IF e.ll # -1 /\ e.ll # total THEN "computed width of the source"
        ELSE IF total <= avail /\ (n > 1 \/ e.lines[1].s # e.s \/ e.lines[1].kind # e.kind) THEN "a fitting line was changed"
        ELSE IF domain /\ \E k \in 1..n : LineWidth(k) > avail THEN "line too wide"
        ELSE IF \E k \in 1..n : LineWidth(k) # e.lines[k].vl THEN "computed width of a line"
        ELSE IF domain /\ \E k \in 1..n : e.lines[k].rw > e.w THEN "rendered line too wide"
        ELSE "ok"
    [] Prop = "C15" ->
        IF n = 0 THEN "no line"
        ELSE IF e.lines[1].kind # e.kind \/ \E k \in 2..n : e.lines[k].kind # fk THEN "kind of line"
        ELSE IF \E k \in 1..n : e.lines[k].d # e.d THEN "depth or level of line"
        ELSE IF e.spw # -1 /\ \E k \in 1..n : e.lines[k].sp # e.spw THEN "spacing of line"
        ELSE IF domain /\ n > 1 /\ (\A k \in 1..Len(e.s) : e.s[k].c # <<>>) /\ \E k \in 1..n : X[k] = <<>> THEN "empty line"
        ELSE IF domain THEN TextVerdict(S, X, room)
        ELSE LET Vis(s) == SelectSeq([k \in 1..Len(s) |-> << s[k].c, s[k].f >>], LAMBDA x : ~Blank(x[1]))
             IN IF Vis(FlattenSeq(X)) = Vis(S) THEN "ok" ELSE "text changed"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = 0
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ st' = st
  /\ v' = Judge(Traces[tr], Traces[tr].ev[i + 1])
Accepted == v = "ok"
=============================================================================
