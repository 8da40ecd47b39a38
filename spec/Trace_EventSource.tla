------------------------- MODULE Trace_EventSource --------------------------
(* Validates what real event sources deliver (C22, C23) against             *)
(* EventSource.tla.  State: next input, source, events to deliver, last     *)
(* click, sequences not read, number of events delivered.                   *)
EXTENDS EventSource, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

\* a source made without options discards raw keys and moves, not drags
Opt(t) == IF t.dflt = 1 THEN [move |-> TRUE, drag |-> FALSE, raw |-> TRUE, combining |-> FALSE, mandate |-> TRUE]
  ELSE [move |-> t.move = 1, drag |-> t.drag = 1, raw |-> t.raw = 1, combining |-> t.combining = 1, mandate |-> t.mandate = 1]
Start == [n |-> 0, src |-> Source, todo |-> <<>>, up |-> <<>>, seqs |-> <<>>, cnt |-> 0, t |-> 0]

\* inputs are read until something is to be delivered
RECURSIVE Feed(_, _)
Feed(t, s) ==
  IF s.todo # <<>> \/ s.n >= Len(t.in) THEN s
  ELSE LET r == OnInput(s.src, t.in[s.n + 1], Opt(t))
       IN Feed(t, [s EXCEPT !.n = @ + 1, !.src = r.src, !.todo = r.out,
                            !.seqs = IF r.seq # <<>> /\ Len(@) < SEQS THEN Append(@, r.seq) ELSE @])

\* text of a sequence: its chars without modifier
RECURSIVE Shown(_)
Shown(y) == IF y = <<>> THEN <<>> ELSE (IF y[1].m = 0 /\ y[1].c > 0 THEN << y[1].c >> ELSE <<>>) \o Shown(Tail(y))
SeqOk(x, y) == x.keys = y /\ x.shown = Shown(y)

JudgeEvent(t, e, s0) ==
  LET s == Feed(t, s0) IN
  IF s.todo = <<>> \/ s.todo[1].e # e.e THEN "event delivered"
  ELSE IF e.dbl = 1 /\ ~Left(e.e) THEN "double click flag of something else"
  ELSE IF ~DoubleClickIs(s.up, e.e, e.t, e.dbl = 1) THEN "double click"
  ELSE IF Prop = "C23" /\ e.ck # (IF LeftUp(e.e) /\ e.e.m = 0 /\ e.dbl = 0 THEN << e.e.x, e.e.y >> ELSE <<>>) THEN "simple click"
  ELSE IF Prop = "C22" /\ e.more # 0 THEN "delivered before being unblocked"
  ELSE IF Prop = "C22" /\ e.cnt # s.cnt + 1 THEN "count of events"
  ELSE IF Prop = "C22" /\ ~SameComb(e.cb, s.todo[1].comb) THEN "combination"
  ELSE IF Prop = "C22" /\ t.combining = 0 /\ (e.ca = 1) # (e.e.k = "key" /\ e.e.s = "Char('a')" /\ e.e.m = CTRL) THEN "is_key"
  ELSE IF e.t < s.t - 1 \/ e.t > e.hi \/ e.t < e.lo - 1 THEN "time"
  ELSE "ok"

Judge(t, e, s0) ==
  CASE e.o = "ev" -> JudgeEvent(t, e, s0)
    [] e.o = "seqs" ->
        IF Prop # "C22" THEN "ok"
        ELSE IF Len(e.l) # Len(s0.seqs) \/ \E k \in 1..Len(e.l) : ~SeqOk(e.l[k], s0.seqs[k]) THEN "sequences" ELSE "ok"
    [] e.o = "quit" ->
        IF e.got # 0 THEN "delivered after the end"
        ELSE IF e.closed = 0 \/ e.seq = 0 THEN "not closed"
        ELSE IF e.cnt # s0.cnt THEN "count at the end"
        ELSE IF e.raw # << 0, 1, 0 >> THEN "mode of the terminal"
        ELSE IF t.combining # (IF t.asked = 1 /\ t.kitty = 1 THEN 1 ELSE 0) THEN "combining"
        ELSE "ok"
    [] e.o = "missing" -> "event missing"
    [] OTHER -> "the source died"

Apply(t, e, s0) ==
  CASE e.o = "ev" ->
        LET s == Feed(t, s0)
        IN [s EXCEPT !.todo = Tail(@), !.up = OnDelivered(@, e.e, e.t), !.cnt = @ + 1, !.t = e.t]
    [] e.o = "seqs" -> [s0 EXCEPT !.seqs = <<>>]
    [] OTHER -> s0

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = Start
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ v' = Judge(Traces[tr], Traces[tr].ev[i + 1], st)
  /\ st' = IF v' = "ok" THEN Apply(Traces[tr], Traces[tr].ev[i + 1], st) ELSE st
Accepted == v = "ok"
=============================================================================
