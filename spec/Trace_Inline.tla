---------------------------- MODULE Trace_Inline ----------------------------
(* Validates what inline templates write and print (C26) against Inline.tla *)
EXTENDS Inline, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

Judge(t, e) ==
  IF e.p = 1 THEN "panic"
  ELSE
  LET x == InlineCells(t.sk, Fill(Parse(e.t), e.a)) IN
  IF e.odd # 0 THEN "control sequences"
  ELSE IF e.c # [j \in 1..Len(x) |-> x[j].c] THEN "text displayed"
  ELSE IF ~Shows(e, t.sty, x) THEN "styles displayed"
  ELSE "ok"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = 0
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ st' = st
  /\ v' = Judge(Traces[tr], Traces[tr].ev[i + 1])
Accepted == v = "ok"
=============================================================================
