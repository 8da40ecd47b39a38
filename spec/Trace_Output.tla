---------------------------- MODULE Trace_Output ----------------------------
(* Validates what real processes show on their terminal against Output.tla. *)
(* e.ref: the lines which formatting the source for the width e.fw gives.   *)
EXTENDS Output, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

\* the pseudo terminals have 80 x 24 cells at start
InitState(t) == [w |-> IF t.tty = 1 THEN 80 ELSE t.w0, h |-> IF t.tty = 1 THEN 24 ELSE t.h0, kept |-> -1, lines |-> <<>>]

ShownOk(t, s, e, lines) ==
  LET x == Expected(s, e, t.sk, lines) IN
  IF Len(e.out) # Len(x) THEN "number of lines"
  ELSE IF \E j \in 1..Len(x) : e.out[j].odd # 0 THEN "control sequences, or style left after the text"
  ELSE IF \E j \in 1..Len(x) : Len(e.out[j].c) # Len(x[j]) \/ e.out[j].c # [k \in 1..Len(x[j]) |-> x[j][k].c] THEN "text shown"
  ELSE IF \E j \in 1..Len(x) : ~Shows(e.out[j], t.sty, x[j]) THEN "styles shown"
  ELSE "ok"

\* in the reference lines: nothing of the template is lost
TemplateOk(e) ==
  \/ \E k \in 1..Len(e.ref) : e.ref[k].t # "n"
  \/ Seen(FlattenSeq([k \in 1..Len(e.ref) |-> FlattenSeq([j \in 1..Len(e.ref[k].s) |-> e.ref[k].s[j].c])])) = Seen(Substituted(e.tpl, e.vals))

Judge(t, s, e) ==
  CASE e.p = 1 -> "panic"
    [] e.p = 2 -> "nothing comes out"
    [] e.p = 3 -> "the process died"
    [] e.o = "resize" -> "ok"
    [] e.o = "size" -> IF << e.w, e.h >> # << s.w, s.h >> \/ e.w = 0 \/ e.h = 0 THEN "size of the terminal"
                       ELSE IF e.area # << 0, 0, s.w, s.h >> THEN "full screen area" ELSE "ok"
    [] e.o \in Views -> IF e.same = 1 THEN "ok" ELSE "view shown on the standard output"
    [] OTHER ->
       \* the reference is the right one
       IF e.o # "print_kept" /\ e.fw # FormatWidth(s, e) THEN "harness: reference width"
       ELSE IF e.o = "keep" THEN "ok"
       ELSE IF e.o \in {"print_expander", "print_owning_expander", "print_owning_expander_md"} /\ ~TemplateOk(e) THEN "text of the template"
       ELSE IF e.o = "raw" /\ [k \in 1..Len(e.ref) |-> e.ref[k].s[1].c] # RawLines(e.src) THEN "harness: raw lines"
       \* areas too narrow for a line (its mark and margins and a char)
       ELSE IF e.o \in Windows /\ \E j \in 1..Min2(Len(e.ref), e.area[4]) : CellsWidth(LineCells(t.sk, e.ref[j], e.area[3], TRUE)) > e.area[3] THEN "ok"
       ELSE IF e.o \in Windows /\ (e.bad # 0 \/ e.outside # 0) THEN "cells of the area"
       ELSE IF e.o \notin Windows /\ e.nl # (IF Ended(e) THEN 1 ELSE 0) THEN "end of line"
       ELSE ShownOk(t, s, e, IF e.o = "print_kept" THEN s.lines ELSE e.ref)

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = InitState(Traces[tr])
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET t == Traces[tr]
         e == t.ev[i + 1]
     IN  /\ v' = Judge(t, st, e)
         /\ st' = IF v' # "ok" THEN st ELSE [Step(st, e) EXCEPT !.lines = IF e.o = "keep" THEN e.ref ELSE @]
Accepted == v = "ok"
=============================================================================
