--------------------------- MODULE Trace_Geometry ---------------------------
(* Validates areas and rectangles (C27) and progress bars (C28) against     *)
(* Geometry.tla.                                                            *)
EXTENDS Geometry, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

Judge(a, e) ==
  IF e.p = 1 THEN "panic"
  ELSE CASE e.o = "pad" -> IF e.r = Pad(a, e.v[1], e.v[2]) THEN "ok" ELSE "padded area"
    [] e.o = "padmax" -> IF e.r \in PadMax(a, e.v[1]) THEN "ok" ELSE "area padded for a max width"
    [] e.o = "in" -> IF e.r = << Inside(a, e.v[1], e.v[2]), Right(a), Bottom(a) >> THEN "ok" ELSE "content of the area"
    [] e.o = "new" -> "ok"
    [] e.o = "rect" ->
         IF e.odd # 0 THEN "control sequences or cells out of the screen"
         ELSE IF e.r # [y \in 1..e.screen[2] |-> [x \in 1..e.screen[1] |-> RectCell(e.v, Border(e.border), e.fill, x - 1, y - 1)]] THEN "cells of the rectangle"
         ELSE IF e.bad # 0 THEN "cells written several times or with another style"
         ELSE "ok"
    [] e.o = "bar" ->
         IF e.r \in {Padded(Bar(x), e.v[4], e.al) : x \in Eighths(e.v[1], e.v[2], e.v[3])} THEN "ok" ELSE "progress bar"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = Traces[tr].a
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET e == Traces[tr].ev[i + 1]
     IN /\ v' = Judge(st, e)
        /\ st' = IF e.p = 0 /\ e.o \in {"pad", "padmax", "new"} THEN e.r ELSE st
Accepted == v = "ok"
=============================================================================
