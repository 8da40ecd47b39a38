---------------------------- MODULE Trace_Render ----------------------------
(* Validates the display of formatted texts (C19) against Render.tla.       *)
EXTENDS Render, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

\* width of the code block around the source line u
CodeAt(src, u) == u >= 1 /\ u <= Len(src) /\ src[u].kind = "c"
RECURSIVE BlockStart(_, _), BlockEnd(_, _)
BlockStart(src, u) == IF CodeAt(src, u - 1) THEN BlockStart(src, u - 1) ELSE u
BlockEnd(src, u) == IF CodeAt(src, u + 1) THEN BlockEnd(src, u + 1) ELSE u
BlockWidth(src, u) == Max({CompsWidth(src[k].s) : k \in BlockStart(src, u)..BlockEnd(src, u)})

Expected(t, e) ==
  CASE e.t = "n" ->
        LET ls == LineStyle(t.sk, e.kind, e.d)
            m == Margins(ls.ml, ls.mr, t.w)
            bw == IF t.inline THEN -1
                  ELSE IF e.kind # "c" THEN -1
                  ELSE IF t.w < 3 THEN BlockWidth(t.src, e.u)
                  ELSE Min2(BlockWidth(t.src, e.u), t.w - m[1] - m[2])
        IN CompositeCells(t.sk, t.sk.mode, e.kind, e.d, e.s, bw, "l", t.dw, t.right, TRUE)
    [] e.t = "row" -> RowCells(t.sk, t.sk.mode, e.cells, e.widths, e.aligns, t.dw, t.right)
    [] e.t = "rule" -> RuleCells(t.sk, e.pos, e.widths, t.dw, t.right)
    [] e.t = "hr" -> HrCells(t.sk, t.dw)

\* width of the widest line
LineLength(t, e) ==
  CASE e.t = "n" -> VisibleLength(t.sk.mode, e.kind, e.d, e.s)
    [] e.t \in {"row", "rule"} -> TableWidth(e.widths)
    [] OTHER -> 0

\* the text of each source line is displayed once
Visibles(s) == LET f == Flat(s) IN SelectSeq([k \in 1..Len(f) |-> << f[k].c, f[k].f >>], LAMBDA x : ~Blank(x[1]))
TextKept(t) ==
  \A u \in {k \in 1..Len(t.src) : t.src[k].kind \notin {"table", "hr"}} :
    LET of == SelectSeq(SubSeq(t.ev, 1, Len(t.ev) - 1), LAMBDA e : e.u = u)
    IN of # <<>> /\ Visibles(FlattenSeq([k \in 1..Len(of) |-> of[k].s])) = Visibles(t.src[u].s)

Judge(t, e) ==
  IF e.p THEN "panic"
  ELSE IF e.t = "count" THEN "number of lines displayed"
  ELSE IF e.t = "cw" THEN (IF ~TextKept(t) THEN "text of the lines" ELSE IF e.cw = Max({0} \cup {LineLength(t, t.ev[k]) : k \in 1..(Len(t.ev) - 1)}) THEN "ok" ELSE "content width")
  ELSE IF e.t = "n" /\ ~t.inline /\ t.src[e.u].kind # e.kind /\ FollowKind(t.src[e.u].kind) # e.kind THEN "kind of line"
  ELSE
  LET x == Expected(t, e) IN
  IF e.odd # 0 THEN "control sequences"
  ELSE IF Len(e.c) # Len(x) \/ e.c # [j \in 1..Len(x) |-> x[j].c] THEN "text displayed"
  ELSE IF ~Shows(e, t.sty, x) THEN "styles displayed"
  ELSE "ok"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = 0
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ st' = st
  /\ v' = Judge(Traces[tr], Traces[tr].ev[i + 1])
Accepted == v = "ok"
=============================================================================
