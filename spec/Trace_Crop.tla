----------------------------- MODULE Trace_Crop -----------------------------
(* Validates what crop writers write (C18) against Crop.tla.                *)
EXTENDS Crop, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

Default == << SP, SP >>
Expected(t, left, e) ==
  CASE e.op \in {"str", "char"} -> Emits(IF e.op = "char" THEN Expand(e.s, t.tab) ELSE e.s, left, Default)
    [] e.op = "g" -> {SubSeq(e.s, 1, Min2(Len(e.s), left))}
    [] e.op = "rep" -> {Rep(e.s[1], FillCount(e.s[1], e.n, left))}
    [] e.op = "fill" -> {Rep(e.s[1], FillCount(e.s[1], left, left))}

Judge(t, left, e) ==
  IF e.p THEN "panic"
  ELSE IF e.op = "fit" THEN
    LET k == Longest(e.s, e.n, Default)
        x == Fitting1(e.s, e.n, Default)
        w == TextWidth(x)
    IN IF e.bytes # Bytes(SubSeq(e.s, 1, k)) \/ e.cols # w THEN "counts of the fitting part"
       ELSE IF e.out # x \/ e.cow # x \/ e.cows # w \/ e.outs # w THEN "fitting part"
       ELSE "ok"
  ELSE IF e.op = "crop" THEN
    (IF e.out = Fitting1(e.s, left, Default) /\ e.cols = TextWidth(e.out) /\ e.left = left THEN "ok" ELSE "cropped string")
  ELSE IF e.op \in {"pad", "bg"} THEN
    (IF e.out = Padded(e.s, e.n, IF e.op = "bg" THEN "l" ELSE e.al) /\ e.odd = 0 THEN "ok" ELSE "spacing")
  ELSE IF e.op = "filling" THEN (IF e.out = e.n /\ e.odd = 0 THEN "ok" ELSE "filling")
  ELSE IF e.odd # 0 THEN "control sequences"
  ELSE IF e.out \notin Expected(t, left, e) THEN "chars written"
  ELSE IF e.left # left - TextWidth(e.out) THEN "remaining columns"
  ELSE IF e.full # (e.left = 0) THEN "is_full"
  ELSE IF e.bad # 0 THEN "style"
  ELSE "ok"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = Traces[tr].allowed
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET e == Traces[tr].ev[i + 1]
     IN /\ v' = Judge(Traces[tr], st, e)
        /\ st' = IF e.p \/ e.op \in {"fit", "filling", "pad", "bg"} THEN st ELSE e.left
Accepted == v = "ok"
=============================================================================
