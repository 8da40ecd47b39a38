---------------------------- MODULE Trace_Editor ----------------------------
(* Validates histories recorded from the real InputField against Editor.    *)
EXTENDS Editor, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

Has(r, k) == k \in DOMAIN r
Obs(o, nk) == [L |-> o.L, p |-> o.p, t |-> IF o.t = <<>> THEN <<>> ELSE <<o.t[1], o.t[2]>>, sc |-> o.sc,
               f |-> o.f, a |-> o.a, pw |-> o.pw, nk |-> nk]

\* fields named s are the observed state; the text argument is renamed
Arg(e) == e
Range1(s) == {s[k] : k \in 1..Len(s)}
Panics(e) == e.r = "panic"
SameRes(e, r) == IF e.r = "text" THEN e.rs = r ELSE IF e.r = "null" THEN TRUE ELSE (e.r = "true") = r

EditOps == EditMethods \cup {"put_char", "insert_str", "set_str", "replace_selection", "cut_selection", "del_selection"}
IsMoveKey(e) == e.o = "key" /\ e.k \in DOMAIN KeyMove

\* agreement of the other accessors with the observed state
ViewsOk(o, w) ==
  LET T == Flat(o.L) IN
  /\ w.g = T /\ w.it = T /\ w.ic /\ ~w.io
  /\ w.is = (T = <<>>)
  /\ w.ie = (T = <<>>) /\ w.ce = (T = <<>>)
  /\ w.lc = Len(o.L) /\ w.l0
  /\ w.ml = (Offset(o.L, o.p) > 0) /\ w.mr = (Offset(o.L, o.p) < Len(T))
  /\ w.ws = (o.t # <<>> /\ <<o.t[1], o.t[2]>> # o.p)
RawOk(o) == o.t = <<>> \/ o.t[3] = 1

\* background of the focused field in the harness
FieldBg == "a17"
ScrollCell(c) == c \in {9616, 9615, 9474, 32, 9608}  \* never used for a decision
RenderOk(s, d) ==
  LET h == Height(s)
      rows == [j \in 1..h |-> RenderRow(s, j - 1)]
      bar == YScroll(s) /\ s.a[3] > 0
      th == Thumb(s.sc[2], NbLines(s), h)
      curs == {j \in 1..h : rows[j].cur >= 0}
      barCell(j) == d.rows[j].c[Len(d.rows[j].c)]
      barSty(j) == d.rows[j].s[Len(d.rows[j].s)]
  IN
  /\ d.bad = 0 /\ d.out = 0 /\ Len(d.rows) = h
  /\ \A j \in 1..h :
       IF bar
       THEN /\ d.rows[j].c = rows[j].row.c \o << barCell(j) >>
            /\ d.rows[j].s = rows[j].row.s \o << barSty(j) >>
            \* the bar has the background of the focused field
            /\ (d.bb[j] = FieldBg) <=> s.f
            \* thumb and track cells differ
            /\ (bar /\ th[1] <= j-1 /\ j-1 <= th[2]) =>
                 \A k \in 1..h : (k-1 < th[1] \/ k-1 > th[2]) => << barCell(k), barSty(k) >> # << barCell(j), barSty(j) >>
            /\ \A k \in 1..h : ((th[1] <= j-1 /\ j-1 <= th[2]) <=> (th[1] <= k-1 /\ k-1 <= th[2]))
                 => << barCell(k), barSty(k) >> = << barCell(j), barSty(j) >>
       ELSE d.rows[j] = rows[j].row
  /\ d.cur = IF curs = {} THEN <<>> ELSE LET j == CHOOSE k \in curs : TRUE IN << s.a[1] + rows[j].cur, s.a[2] + j - 1 >>

\* The verdict on one event: pre-state, event, predicted result
Judge(pre, e) ==
  IF Panics(e) THEN "panic"
  ELSE
  LET pred == Step(pre, e)
      ps == pred.s
      o == Obs(e.s, pre.nk)
      same(k) == ps[k] = o[k]
  IN
  CASE Prop = "C01" ->
         IF ~same("L") THEN "text"
         ELSE IF (e.o \in EditOps \/ (e.o = "key" /\ ~IsMoveKey(e))) /\ ~same("p") THEN "cursor after edit"
         ELSE IF e.o \in EditOps /\ e.o # "cut_selection" /\ ~SameRes(e, pred.r) THEN "result"
         ELSE "ok"
    [] Prop = "C02" ->
         IF ~TypeOk(o) \/ ~RawOk(e.s) THEN "invalid state"
         ELSE IF ~ViewsOk(e.s, e.v) THEN "accessors"
         ELSE IF e.o = "is_content" /\ ~SameRes(e, pred.r) THEN "is_content"
         ELSE IF e.o = "set_str" /\ (~same("L") \/ ~same("p") \/ ~same("t")) THEN "set_str"
         ELSE "ok"
    [] Prop = "C03" ->
         IF ~same("t") THEN "selection"
         ELSE IF e.o \in {"copy_selection", "cut_selection"} /\ ~SameRes(e, pred.r) THEN "returned text"
         ELSE IF (e.o \in {"cut_selection", "copy_selection", "del_selection", "replace_selection", "select_word_around"}
                  \/ (e.o = "key" /\ Wide(pre)) \/ e.o = "mouse")
                 /\ (~same("L") \/ ~same("p")) THEN "selected text"
         ELSE "ok"
    [] Prop = "C04" ->
         IF e.o \in MoveNames \/ IsMoveKey(e) THEN
              IF ~same("p") THEN "position" ELSE IF ~SameRes(e, pred.r) THEN "result"
              ELSE IF ~same("L") THEN "text" ELSE "ok"
         ELSE IF e.o \in {"mouse", "click"} /\ ~same("p") THEN "position" ELSE "ok"
    [] Prop = "C05" ->
         IF HasRoom(o) /\ ~same("sc") THEN "scroll"
         ELSE IF ~ScrollBounded(o) THEN "scroll out of bounds"
         ELSE IF e.o \in {"scroll_up", "scroll_down"} /\ HasRoom(o) /\ ~SameRes(e, pred.r) THEN "result"
         ELSE "ok"
    [] Prop = "C06" -> IF ~same("a") \/ ~same("pw") THEN "area or mask" ELSE IF RenderOk(o, e.d) THEN "ok" ELSE "display"
    [] Prop = "C07" ->
         IF e.o \in {"key", "mouse", "click", "resize", "set_focus"}
         THEN IF ~SameRes(e, pred.r) THEN "consumed"
              ELSE IF ~same("f") THEN "focus"
              ELSE IF ~same("p") \/ ~same("L") THEN "effect"
              ELSE IF ~(pre.f) /\ ~same("t") THEN "selection"
              ELSE "ok"
         ELSE IF ~same("f") THEN "focus" ELSE "ok"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ st = IF Has(Traces[tr], "i") THEN Obs(Traces[tr].i.s, Range1(Traces[tr].nk)) ELSE [nk |-> {}]
  /\ v = IF ~Has(Traces[tr], "i") THEN "panic"
         ELSE IF Prop = "C06" /\ ~RenderOk(st, Traces[tr].i.d) THEN "display"
         ELSE IF Prop = "C02" /\ ~(TypeOk(st) /\ ViewsOk(Traces[tr].i.s, Traces[tr].i.v)) THEN "invalid state"
         ELSE "ok"
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET e == Traces[tr].ev[i + 1]
         ini == Obs(Traces[tr].i.s, Range1(Traces[tr].nk))
         pre == IF Traces[tr].fan THEN ini ELSE st
     IN  /\ v' = Judge(pre, e)
         /\ st' = IF Panics(e) \/ Traces[tr].fan THEN st
                  ELSE Obs(e.s, IF e.o = "set_mono_line" THEN {} ELSE IF e.o = "new_line_on" THEN pre.nk \cup {e.k} ELSE pre.nk)
Accepted == v = "ok"
=============================================================================
