----------------------------- MODULE Trace_Table ----------------------------
(* Validates the tables of formatted texts (C16) against Table.tla.         *)
EXTENDS Table, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

\* columns of the chars of a line which are in a set
RECURSIVE ColsFrom(_, _, _, _)
ColsFrom(cs, j, x, set) ==
  IF j > Len(cs) THEN {}
  ELSE (IF cs[j] \in set THEN {x} ELSE {}) \cup ColsFrom(cs, j + 1, x + Width(cs[j]), set)
Cols(cs, set) == ColsFrom(cs, 1, 0, set)

TopChars(tbc) == {tbc.tl, tbc.tr, tbc.tj}
BottomChars(tbc) == {tbc.bl, tbc.br, tbc.bj}
OtherChars(tbc) == {tbc.lj, tbc.rj, tbc.x}
Separators(tbc, l) ==
  IF l.t = "row" THEN {tbc.v}
  ELSE CASE l.pos = "top" -> TopChars(tbc) [] l.pos = "bottom" -> BottomChars(tbc) [] OTHER -> OtherChars(tbc)

Judge(t, e) ==
  IF e.p THEN "panic"
  ELSE IF e.t = "fit" THEN (IF FitterOk(e) THEN "ok" ELSE "fitter")
  ELSE IF e.t = "tables" THEN (IF e.n = e.of THEN "ok" ELSE "number of tables")
  ELSE IF t.w # -1 /\ t.w < 5 THEN "ok"
  ELSE
  LET mode == t.sk.mode
      out == e.out
      widths == out[1].widths
      left == TableOuter(t.sk, widths, t.w)[1]
      right == TableOuter(t.sk, widths, t.w)[2]
  IN
  IF Len(out) = 0 THEN "no line"
  \* rules without any column ("|> "): nothing to align
  ELSE IF \A k \in 1..Len(e.src) : e.src[k].kind = "rule" /\ e.src[k].aligns = <<>> THEN "ok"
  ELSE IF ~GoodWidths(e.src, mode, t.w, widths) THEN "widths of the columns"
  ELSE IF ~GoodLines(mode, e.src, out, widths) THEN "rows, cells, alignments or rules"
  ELSE IF \E k \in 1..Len(out) : out[k].vl # TableWidth(widths) THEN "computed width"
  ELSE IF ~InDomain(mode, e.src, widths) THEN "ok"
  ELSE IF \E k \in 1..Len(out) : TextWidth(out[k].c) # left + TableWidth(widths) THEN "width of the displayed lines"
  ELSE IF \E k \in 1..Len(out) : Cols(out[k].c, Separators(t.sk.tbc, out[k])) # Offsets(left, widths) THEN "position of the separators"
  ELSE "ok"

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = 0
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ st' = st
  /\ v' = Judge(Traces[tr], Traces[tr].ev[i + 1])
Accepted == v = "ok"
=============================================================================
