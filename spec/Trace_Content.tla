---------------------------- MODULE Trace_Content ----------------------------
(* Validates histories of the content of a field, driven directly.  It is   *)
(* the text/cursor/selection part of the state of Editor, with a few more   *)
(* operations.                                                              *)
EXTENDS Editor, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

Has(r, k) == k \in DOMAIN r
\* the viewport is of no importance here
Obs(o) == [L |-> o.L, p |-> o.p, t |-> IF o.t = <<>> THEN <<>> ELSE <<o.t[1], o.t[2]>>, sc |-> <<0, 0>>,
           f |-> TRUE, a |-> <<0, 0, 10, 5>>, pw |-> FALSE, nk |-> {}]

ContentOps == {"push_char", "insert_char", "set_cursor_pos", "set_selection_tail", "make_selection", "unselect",
  "make_valid_pos", "swap_lines", "move_lines_up", "move_lines_down", "is_str", "from"}
\* positions in a text with a char appended don't move
Push(s, c) ==
  IF Ignored(c) THEN s
  ELSE IF c = NL THEN [s EXCEPT !.L = Append(@, <<>>)]
  ELSE [s EXCEPT !.L = [@ EXCEPT ![Len(@)] = Append(@, c)]]
JumpTo(s, y) == IF y = s.p[2] THEN Res(s, FALSE) ELSE Res([s EXCEPT !.p = Vertical(s, y)], TRUE)
CStep(s, e) ==
  CASE e.o = "push_char" -> Res(Push(s, e.c), "null")
    [] e.o = "insert_char" -> Res(InsertChar(s, e.c), "null")
    [] e.o = "set_cursor_pos" -> Res([s EXCEPT !.p = ValidPos(s.L, e.q)], "null")
    [] e.o = "set_selection_tail" -> Res([s EXCEPT !.t = ValidPos(s.L, e.q)], "null")
    [] e.o = "make_selection" -> Res(IF HasSel(s) THEN s ELSE [s EXCEPT !.t = s.p], "null")
    [] e.o = "unselect" -> Res(NoSel(s), "null")
    [] e.o = "make_valid_pos" -> Res(s, ValidPos(s.L, e.q))
    [] e.o = "swap_lines" ->
         IF e.q[1] = e.q[2] \/ e.q[1] >= NbLines(s) \/ e.q[2] >= NbLines(s) THEN Res(s, FALSE)
         ELSE LET s2 == SwapLines(s, e.q[1], e.q[2])
              IN  Res([s2 EXCEPT !.p = ValidPos(s2.L, @), !.t = FixTail(s2.L, @)], TRUE)
    [] e.o \in {"move_lines_up", "move_lines_down"} /\ e.n = 0 -> Res(s, FALSE)
    [] e.o = "move_lines_up" -> JumpTo(s, Monus(s.p[2], e.n))
    [] e.o = "move_lines_down" -> JumpTo(s, Min2(s.p[2] + e.n, NbLines(s) - 1))
    [] e.o = "is_str" -> Res(s, Flat(s.L) = e.s_)
    [] e.o = "from" -> Res(InsertStr(Cleared(s), e.s_), "null")
    [] e.o = "insert_new_line" -> Res(InsertChar(s, NL), "null")
    [] OTHER -> Step(s, e)

SameRes(e, r) == IF e.r = "pos" THEN e.rp = r ELSE IF e.r = "null" THEN TRUE ELSE (e.r = "true") = r

ViewsOk(s, w) ==
  LET T == Flat(s.L) line == CurLine(s) IN
  /\ w.g = T /\ w.it = T /\ w.ic /\ ~w.io /\ w.is = (T = <<>>)
  /\ w.ce = (T = <<>>) /\ w.lc = Len(s.L) /\ w.l0 /\ w.ls = s.L[Len(s.L)]
  /\ w.ml = (Offset(s.L, s.p) > 0) /\ w.mr = (Offset(s.L, s.p) < Len(T))
  /\ w.e = EndPos(s.L) /\ w.w = LineWidth(line)
  /\ \A k \in 1..Len(w.cols) : w.cols[k] = ColOf(line, k - 1)
  /\ \A k \in 1..Len(w.idx) :
       w.idx[k] = LET x == CharAtCol(line, k - 1) IN IF x = Len(line) THEN -1 ELSE x
SelOk(s, w) ==
  /\ w.ws = Wide(s) /\ w.ss = SelText(s)
  /\ w.rg = SelMin(s) \o SelMax(s)
  /\ Range(w.inr) = {q \in (0..4) \X (0..NbLines(s)) : InSel(s, q[1], q[2])}

Edits == EditMethods \cup {"push_char", "insert_char", "insert_str", "set_str", "from", "del_selection", "swap_lines"}
Judge(pre, e) ==
  IF e.r = "panic" THEN "panic"
  ELSE
  LET pred == CStep(pre, e)
      ps == pred.s
      o == Obs(e.s)
      same(k) == ps[k] = o[k]
  IN
  CASE Prop = "C01" ->
         IF ~same("L") THEN "text"
         ELSE IF e.o \in Edits /\ ~same("p") THEN "cursor after edit"
         ELSE IF e.o \in Edits /\ ~SameRes(e, pred.r) THEN "result"
         ELSE "ok"
    [] Prop = "C02" ->
         IF ~TypeOk(o) \/ (e.s.t # <<>> /\ e.s.t[3] # 1) THEN "invalid state"
         ELSE IF ~ViewsOk(o, e.v) THEN "accessors"
         ELSE IF e.o \in {"is_str", "make_valid_pos"} /\ ~SameRes(e, pred.r) THEN "result"
         ELSE IF e.o \in {"set_str", "set_cursor_pos", "set_selection_tail", "from"} /\ (~same("L") \/ ~same("p") \/ ~same("t")) THEN "setter"
         ELSE "ok"
    [] Prop = "C03" ->
         IF ~same("t") THEN "selection"
         ELSE IF ~SelOk(o, e.v) THEN "selected text"
         ELSE IF e.o \in {"del_selection", "select_word_around"} /\ (~same("L") \/ ~same("p")) THEN "selected text"
         ELSE "ok"
    [] Prop = "C04" ->
         IF e.o \in MoveNames \cup {"move_lines_up", "move_lines_down", "set_cursor_pos"} THEN
              IF ~same("p") THEN "position" ELSE IF ~SameRes(e, pred.r) THEN "result"
              ELSE IF ~same("L") THEN "text" ELSE "ok"
         ELSE "ok"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ st = IF Has(Traces[tr], "i") THEN Obs(Traces[tr].i.s) ELSE [nk |-> {}]
  /\ v = IF ~Has(Traces[tr], "i") THEN "panic"
         ELSE IF Prop = "C02" /\ ~(TypeOk(st) /\ ViewsOk(st, Traces[tr].i.v)) THEN "invalid state"
         ELSE "ok"
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET e == Traces[tr].ev[i + 1]
         pre == IF Traces[tr].fan THEN Obs(Traces[tr].i.s) ELSE st
     IN  /\ v' = Judge(pre, e)
         /\ st' = IF e.r = "panic" \/ Traces[tr].fan THEN st ELSE Obs(e.s)
Accepted == v = "ok"
=============================================================================
