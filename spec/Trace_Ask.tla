----------------------------- MODULE Trace_Ask ------------------------------
(* Validates the questions asked by a program, sharing its input (C24),     *)
(* against Ask.tla.  The state is the number of lines read.                 *)
EXTENDS Ask, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

\* width of what's not a terminal
W == 50

RowOk(t, o, x) == o.odd = 0 /\ Shows(o, t.sty, x)
Judge(t, e, pos) ==
  IF e.p = 1 THEN "the program failed"
  ELSE IF e.missing = 1 THEN "question without result"
  ELSE IF MacroRefuses(e) THEN (IF e.r = <<>> /\ e.out = <<>> /\ e.tail = 0 THEN "ok" ELSE "asked an exotic default")
  ELSE
  LET a == Asked(e, t.lines, Start(pos))
      rows == QuestionRows(t.sk, e, W)
      n == Len(rows)
  IN IF e.exo # (IF Exotic(e) THEN 1 ELSE 0) THEN "exotic default"
     ELSE IF e.r # Tail(a.r) THEN "result"
     ELSE IF e.tail # 0 \/ Len(e.out) # n + a.refused THEN "lines printed"
     ELSE IF \E k \in 1..n : ~RowOk(t, e.out[k], rows[k]) THEN "text of the question"
     ELSE IF \E k \in (n + 1)..Len(e.out) : e.out[k].c = <<>> THEN "refusal"
     ELSE "ok"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = 0
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ v' = Judge(Traces[tr], Traces[tr].ev[i + 1], st)
  /\ st' = IF v' = "ok" /\ ~MacroRefuses(Traces[tr].ev[i + 1]) THEN Asked(Traces[tr].ev[i + 1], Traces[tr].lines, Start(st)).pos ELSE st
Accepted == v = "ok"
=============================================================================
