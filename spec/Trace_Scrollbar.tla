--------------------------- MODULE Trace_Scrollbar ---------------------------
(* Validates thumbs computed by the real code, for increasing scrolls of one *)
(* content in one track.                                                    *)
EXTENDS Chars, Scrollbar, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>
\* st: previous thumb, shortest and longest lengths
Judge(t, s, e) ==
  IF e.p THEN "panic"
  ELSE IF (e.t # <<>>) # Present(t.c, t.h) THEN "presence"
  ELSE IF e.t = <<>> THEN "ok"
  ELSE
  LET th == << e.t[1] - t.top, e.t[2] - t.top >>
      len == th[2] - th[1] + 1
  IN
  IF ~(0 <= th[1] /\ th[1] <= th[2] /\ th[2] < t.h) THEN "thumb out of its track"
  ELSE IF ~GoodThumb(th, e.sc, t.c, t.h) THEN "thumb doesn't mirror the position"
  ELSE IF s.some /\ (th[1] < s.th[1] \/ th[2] < s.th[2]) THEN "thumb goes back"
  ELSE IF s.some /\ (len - s.min > 1 \/ s.max - len > 1) THEN "thumb length depends on the scroll"
  ELSE "ok"
After(t, s, e) ==
  IF e.t = <<>> THEN s
  ELSE LET th == << e.t[1] - t.top, e.t[2] - t.top >>
           len == th[2] - th[1] + 1
       IN [some |-> TRUE, th |-> th, min |-> IF s.some THEN Min2(s.min, len) ELSE len, max |-> IF s.some THEN Max2(s.max, len) ELSE len]
Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = [some |-> FALSE, th |-> << 0, 0 >>, min |-> 0, max |-> 0]
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET t == Traces[tr]
         e == t.ev[i + 1]
     IN  /\ v' = Judge(t, st, e)
         /\ st' = IF v' # "ok" THEN st ELSE After(t, st, e)
Accepted == v = "ok"
=============================================================================
