------------------------------- MODULE Ticker -------------------------------
(* What the receiver of the ticks may see.  A beam is                       *)
(*   n      number of ticks asked (-1: no limit)                            *)
(*   per    period                                                          *)
(*   from   time of the start                                               *)
(*   pay    what it sends                                                   *)
(*   seen   ticks received                                                  *)
(*   ph     "live", "stopping" (asked to stop, ticks sent before may still  *)
(*          have to be received), "stopped"                                 *)
(*   after  ticks received once stopped                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* @typeAlias: beam = { n: Int, per: Int, from: Int, pay: Int, seen: Int, ph: Str, after: Int };
TickerTypes == TRUE
\* @type: (Int, Int, Int, Int) => $beam;
NewBeam(n, per, from, pay) == [n |-> n, per |-> per, from |-> from, pay |-> pay, seen |-> 0, ph |-> "live", after |-> 0]

\* a tick received at time t
\* @type: ($beam, Int) => Bool;
TickOk(b, t) ==
  /\ b.n = -1 \/ b.seen < b.n
  /\ t >= b.from + (b.seen + 1) * b.per
  /\ b.ph = "stopped" => b.after = 0
\* @type: ($beam) => $beam;
OnTick(b) == [b EXCEPT !.seen = @ + 1, !.after = IF b.ph = "stopped" THEN @ + 1 ELSE @]
\* @type: ($beam) => $beam;
OnStop(b) == IF b.ph = "live" THEN [b EXCEPT !.ph = "stopping"] ELSE b
\* all that was sent before the stop has been received
\* @type: ($beam) => $beam;
OnSettled(b) == IF b.ph = "stopping" THEN [b EXCEPT !.ph = "stopped"] ELSE b

\* nothing more to wait for, min being what's asked to the endless ones
\* @type: ($beam, Int) => Bool;
Complete(b, min) == b.ph # "live" \/ (IF b.n = -1 THEN b.seen >= min ELSE b.seen = b.n)
=============================================================================
