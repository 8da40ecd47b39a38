---------------------------- MODULE Trace_Ticker ----------------------------
(* Validates what's received from real tickers (C21) against Ticker.tla.    *)
(* The state is the sequence of the beams, whose payloads are 1, 2, 3...    *)
(* Times are in microseconds, starts rounded down and ticks up.             *)
EXTENDS Ticker, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

Judge(e, bs) ==
  CASE e.o = "panic" -> "panic"
    [] e.o = "start" -> IF \E k \in 1..Len(bs) : bs[k].id = e.id THEN "id already given" ELSE "ok"
    [] e.o = "tick" ->
        IF e.pay \notin 1..Len(bs) THEN "tick of no beam"
        ELSE LET b == bs[e.pay].b IN
             IF b.n # -1 /\ b.seen >= b.n THEN "too many ticks"
             ELSE IF b.ph = "stopped" /\ b.after > 0 THEN "tick of a stopped beam"
             ELSE IF ~TickOk(b, e.t) THEN "tick too early"
             ELSE "ok"
    [] e.o = "complete" -> IF e.failed = 1 \/ \E k \in 1..Len(bs) : ~Complete(bs[k].b, e.min[k]) THEN "ticks missing" ELSE "ok"
    [] e.o = "closed" -> IF e.ok = 1 THEN "ok" ELSE "beams still running"
    [] OTHER -> "ok"
Apply(e, bs) ==
  CASE e.o = "start" -> Append(bs, [id |-> e.id, b |-> NewBeam(e.n, e.per, e.t, e.pay)])
    [] e.o = "tick" -> [bs EXCEPT ![e.pay].b = OnTick(@)]
    [] e.o = "stop" -> [k \in 1..Len(bs) |-> IF bs[k].id = e.id THEN [bs[k] EXCEPT !.b = OnStop(@)] ELSE bs[k]]
    [] e.o = "stopall" -> [k \in 1..Len(bs) |-> [bs[k] EXCEPT !.b = OnStop(@)]]
    [] e.o = "settled" -> [k \in 1..Len(bs) |-> [bs[k] EXCEPT !.b = OnSettled(@)]]
    [] OTHER -> bs

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = <<>>
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ v' = Judge(Traces[tr].ev[i + 1], st)
  /\ st' = IF v' = "ok" THEN Apply(Traces[tr].ev[i + 1], st) ELSE st
Accepted == v = "ok"
=============================================================================
