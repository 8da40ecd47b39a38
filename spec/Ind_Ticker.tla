------------------------------ MODULE Ind_Ticker -----------------------------
(* A beam as a thread (see MC_Ticker), with any count, period and clock:    *)
(* Inv is inductive and implies that what's received is always right.  Each *)
(* beam has its own thread and they only share the channel, of which only   *)
(* the number of ticks of the beam counts here (symbolic check, by          *)
(* Apalache).                                                               *)
EXTENDS Ticker
VARIABLES
  \* @type: Int;
  clock,
  \* @type: Str;
  pc,
  \* @type: Int;
  left,
  \* @type: Int;
  until,
  \* @type: Bool;
  intr,
  \* @type: Int;
  sent,
  \* @type: $beam;
  b,
  \* @type: Bool;
  ok
vars == << clock, pc, left, until, intr, sent, b, ok >>

\* ticks which this thread may still send
InFlight == IF pc \in {"wait", "send"} THEN 1 ELSE 0
Inv ==
  /\ pc \in {"wait", "send", "done"} /\ b.ph \in {"live", "stopping", "stopped"}
  /\ b.n >= -1 /\ b.per >= 0 /\ 0 <= b.seen /\ b.seen <= sent /\ left >= -1 /\ b.after >= 0
  /\ b.n = -1 <=> left = -1
  \* all the ticks asked are sent, waited for, or not yet started, but when it's interrupted
  /\ b.n >= 0 => sent + InFlight + left <= b.n
  /\ b.n >= 0 /\ ~intr => sent + InFlight + left = b.n /\ (pc = "done" => left = 0)
  /\ pc = "done" => intr \/ left = 0
  \* no tick was sent before its time
  /\ clock >= b.from + sent * b.per
  /\ pc = "wait" => until >= b.from + (sent + 1) * b.per
  /\ pc = "send" => clock >= b.from + (sent + 1) * b.per
  \* once stopped, at most one more
  /\ b.ph # "live" => intr
  /\ b.ph # "stopped" => b.after = 0
  /\ b.ph = "stopped" => b.after + (sent - b.seen) + (IF pc = "send" THEN 1 ELSE 0) <= 1
  /\ ok

Init ==
  /\ \E n \in Int, per \in Nat, from \in Nat, seen \in Nat, after \in Nat, ph \in {"live", "stopping", "stopped"} :
       b = [n |-> n, per |-> per, from |-> from, pay |-> 1, seen |-> seen, ph |-> ph, after |-> after]
  /\ clock \in Nat /\ until \in Int /\ left \in Int /\ sent \in Nat
  /\ pc \in {"wait", "send", "done"} /\ intr \in BOOLEAN /\ ok \in BOOLEAN
  /\ Inv
\* where it starts
Start ==
  /\ \E n \in Int, per \in Nat, from \in Nat :
       /\ n >= -1
       /\ b = NewBeam(n, per, from, 1)
       /\ clock = from
       /\ IF n = 0 THEN pc = "done" /\ left = 0 /\ until = 0
          ELSE pc = "wait" /\ left = (IF n = -1 THEN -1 ELSE n - 1) /\ until = from + per
  /\ sent = 0 /\ intr = FALSE /\ ok = TRUE

Interrupted == pc = "wait" /\ intr /\ pc' = "done" /\ UNCHANGED << clock, left, until, intr, sent, b, ok >>
Timeout == pc = "wait" /\ ~intr /\ clock >= until /\ pc' = "send" /\ UNCHANGED << clock, left, until, intr, sent, b, ok >>
Send ==
  /\ pc = "send"
  /\ sent' = sent + 1
  /\ IF left = 0 THEN pc' = "done" /\ left' = left /\ until' = until
     ELSE pc' = "wait" /\ left' = (IF left = -1 THEN -1 ELSE left - 1) /\ until' = clock + b.per
  /\ UNCHANGED << clock, intr, b, ok >>
Receive ==
  /\ b.seen < sent
  /\ ok' = (ok /\ TickOk(b, clock))
  /\ b' = OnTick(b)
  /\ UNCHANGED << clock, pc, left, until, intr, sent >>
Stop == intr' = TRUE /\ b' = OnStop(b) /\ UNCHANGED << clock, pc, left, until, sent, ok >>
Settle == b.seen = sent /\ b' = OnSettled(b) /\ UNCHANGED << clock, pc, left, until, intr, sent, ok >>
Elapse == \E d \in Nat : clock' = clock + d /\ UNCHANGED << pc, left, until, intr, sent, b, ok >>
Next == Interrupted \/ Timeout \/ Send \/ Receive \/ Stop \/ Settle \/ Elapse
\* when all is done and received, all was received
Ended == pc = "done" /\ ~intr /\ b.seen = sent => b.n >= 0 /\ b.seen = b.n
Proved == Inv /\ ok /\ b.after <= 1 /\ Ended
=============================================================================
