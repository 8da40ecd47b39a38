----------------------------- MODULE MC_Ticker ------------------------------
(* Beams as threads waiting for an interruption with a timeout, sharing an  *)
(* unbounded channel, with a clock: whatever the interleaving, what's       *)
(* received is what Ticker.tla allows, and every live beam completes.  The  *)
(* last instant stands for all those after it; there's room for 2 ticks.    *)
EXTENDS Ticker, TLC
CONSTANTS MaxBeams, MaxTime, MaxStops, Counts, Periods
VARIABLES
  clock,   \* time
  thr,     \* threads: [pc, left, until, intr, per]
  chan,    \* payloads sent, not received
  beams,   \* what the receiver knows (see Ticker.tla)
  stops,   \* number of stops asked
  ok       \* ticks received were right
vars == << clock, thr, chan, beams, stops, ok >>

CountsSmall == {-1, 1, 2}
PeriodsSmall == {0, 1}
CountsAll == {-1, 0, 1, 2}
PeriodsAll == {0, 1, 2}
Last == Len(thr)

Init == clock = 0 /\ thr = <<>> /\ chan = <<>> /\ beams = <<>> /\ stops = 0 /\ ok = TRUE

\* a thread about to wait, or done
Top(b) == IF b.left = 0 THEN [b EXCEPT !.pc = "done"]
          ELSE [b EXCEPT !.pc = "wait", !.until = clock + b.per, !.left = IF b.left = -1 THEN -1 ELSE b.left - 1]
Start ==
  /\ Last < MaxBeams
  /\ \E n \in Counts, p \in Periods :
       /\ n = -1 => p > 0
       /\ thr' = Append(thr, Top([pc |-> "top", left |-> n, until |-> 0, intr |-> FALSE, per |-> p]))
       /\ beams' = Append(beams, NewBeam(n, p, clock, Last + 1))
  /\ UNCHANGED << clock, chan, stops, ok >>

Interrupted(k) ==
  /\ thr[k].pc = "wait" /\ thr[k].intr
  /\ thr' = [thr EXCEPT ![k].pc = "done"]
  /\ UNCHANGED << clock, chan, beams, stops, ok >>
\* an interruption already there wins over the timeout
Timeout(k) ==
  /\ thr[k].pc = "wait" /\ ~thr[k].intr /\ (clock >= thr[k].until \/ clock = MaxTime)
  /\ thr' = [thr EXCEPT ![k].pc = "send"]
  /\ UNCHANGED << clock, chan, beams, stops, ok >>
Send(k) ==
  /\ thr[k].pc = "send" /\ Cardinality({j \in 1..Len(chan) : chan[j] = k}) < 2
  /\ thr' = [thr EXCEPT ![k] = Top(thr[k])]
  /\ chan' = Append(chan, k)
  /\ UNCHANGED << clock, beams, stops, ok >>

Receive ==
  /\ chan # <<>>
  /\ LET k == Head(chan) IN
       /\ ok' = (ok /\ TickOk(beams[k], IF clock = MaxTime THEN 1000 ELSE clock))
       /\ beams' = [beams EXCEPT ![k] = IF beams[k].n = -1 /\ beams[k].seen = MaxTime THEN [OnTick(@) EXCEPT !.seen = MaxTime] ELSE OnTick(@)]
  /\ chan' = Tail(chan)
  /\ UNCHANGED << clock, thr, stops >>
Stop(ks) ==
  /\ stops < MaxStops
  /\ ks # {} /\ \A k \in ks : beams[k].ph = "live"
  /\ stops' = stops + 1
  /\ thr' = [k \in 1..Last |-> IF k \in ks THEN [thr[k] EXCEPT !.intr = TRUE] ELSE thr[k]]
  /\ beams' = [k \in 1..Last |-> IF k \in ks THEN OnStop(beams[k]) ELSE beams[k]]
  /\ UNCHANGED << clock, chan, ok >>
\* the receiver has received all there was after a stop
Settle ==
  /\ chan = <<>>
  /\ \E k \in 1..Last : beams[k].ph = "stopping"
  /\ beams' = [k \in 1..Last |-> OnSettled(beams[k])]
  /\ UNCHANGED << clock, thr, chan, stops, ok >>
Elapse ==
  /\ clock < MaxTime
  /\ clock' = clock + 1
  /\ UNCHANGED << thr, chan, beams, stops, ok >>

Step(k) == Interrupted(k) \/ Timeout(k) \/ Send(k)
Next ==
  \/ Start \/ Receive \/ Settle \/ Elapse
  \/ \E k \in 1..Last : Step(k) \/ Stop({k})
  \/ Last > 1 /\ Stop({k \in 1..Last : beams[k].ph = "live"})
Spec ==
  /\ Init /\ [][Next]_vars
  /\ WF_vars(Elapse) /\ WF_vars(Receive)
  /\ \A k \in 1..MaxBeams : WF_vars(k <= Last /\ Step(k))

Right == ok
AtMostOneMore == \A k \in 1..Last : beams[k].after <= 1
Completes == \A k \in 1..MaxBeams : (k <= Last) ~> (k <= Last /\ Complete(beams[k], MaxTime))
StoppedEnds == \A k \in 1..MaxBeams : (k <= Last /\ thr[k].intr) ~> (k <= Last /\ thr[k].pc = "done")
=============================================================================
