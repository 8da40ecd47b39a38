-------------------------------- MODULE Table -------------------------------
(* Fitting a table in a width.                                              *)
(*                                                                          *)
(* A source line is [kind |-> "row", cells |-> << [kind, d, s] >>] or       *)
(* [kind |-> "rule", aligns |-> << .. >>].  A result line is                *)
(* [t |-> "row", cells, widths, aligns] or [t |-> "rule", pos, widths].     *)
(* The widths of the columns are free, inside their bounds; the cells are   *)
(* broken according to Wrap.                                                *)
EXTENDS Render

NCols(src) == Max({1} \cup {IF src[k].kind = "row" THEN Len(src[k].cells) ELSE Len(src[k].aligns) : k \in 1..Len(src)})
\* columns have at least 3 chars; the last ones are removed when they can't be shown
Kept(n, w) == IF w = -1 \/ w >= 4 * n + 1 THEN n ELSE (w - 1) \div 4

CellLength(mode, cell) == VisibleLength(mode, cell.kind, cell.d, cell.s)
Natural(src, mode, c) ==
  Max({3} \cup {CellLength(mode, src[k].cells[c]) : k \in {j \in 1..Len(src) : src[j].kind = "row" /\ Len(src[j].cells) >= c}})

GoodWidths(src, mode, w, widths) ==
  LET n == NCols(src)
      k == Kept(n, w)
      nat == [c \in 1..k |-> Natural(src, mode, c)]
  IN /\ Len(widths) = k
     /\ \A c \in 1..k : widths[c] >= 3 /\ widths[c] <= nat[c]
     /\ w # -1 => TableWidth(widths) <= w
     /\ (w = -1 \/ (k = n /\ TableWidth(nat) <= w)) => widths = nat

\* the fitter alone: columns counted from 0, the widths of cells seen
FitterOk(e) ==
  LET nat == [c \in 1..e.n |-> Max({3} \cup {e.seen[k][2] : k \in {j \in 1..Len(e.seen) : e.seen[j][1] = c - 1}})]
      fits == TableWidth(nat) <= e.w
  IN IF e.w < 4 * e.n + 1 THEN e.err
     ELSE /\ ~e.err
          /\ Len(e.widths) = e.n
          /\ \A c \in 1..e.n : e.widths[c] >= 3 /\ e.widths[c] <= nat[c]
          /\ TableWidth(e.widths) <= e.w
          /\ e.reduced = ~fits
          /\ fits => e.widths = nat

EmptyCell == [kind |-> "p", d |-> 0, s |-> <<>>]
CellAt(row, c) == IF c <= Len(row.cells) THEN row.cells[c] ELSE EmptyCell

HasWide(S) == \E j \in 1..Len(S) : Width(S[j].c) > 1
CellRoom(mode, cell, cw) == Monus(cw, Prefix(cell.kind, cell.d, mode))
\* has the cell room for its text after its mark ?
CellInDomain(mode, cell, cw) ==
  CellLength(mode, cell) <= cw \/ CellRoom(mode, cell, cw) >= (IF HasWide(Flat(cell.s)) THEN 2 ELSE 1)

\* are the cells in the sequence parts those of a cell in a column of width cw ?
GoodCell(mode, cell, cw, parts) ==
  IF CellLength(mode, cell) <= cw THEN parts[1] = cell /\ \A j \in 2..Len(parts) : parts[j] = EmptyCell
  ELSE
  IF ~CellInDomain(mode, cell, cw) THEN TRUE
  ELSE
  LET used == {j \in 1..Len(parts) : parts[j] # EmptyCell}
      n == IF used = {} THEN 0 ELSE Max(used)
      X == [j \in 1..n |-> Flat(parts[j].s)]
  IN /\ n > 0
     /\ parts[1].kind = cell.kind
     /\ \A j \in 2..n : parts[j].kind = FollowKind(cell.kind)
     /\ \A j \in 1..n : parts[j].d = cell.d /\ CellLength(mode, parts[j]) <= cw
     /\ TextVerdict(Flat(cell.s), X, CellRoom(mode, cell, cw)) = "ok"

\* alignments of the columns below the rule
RuleAligns(rule, k) == [c \in 1..k |-> IF c <= Len(rule.aligns) THEN rule.aligns[c] ELSE "u"]
DefaultAligns(k) == [c \in 1..k |-> "c"]
RulePos(j, n) == IF j = 1 THEN "top" ELSE IF j = n THEN "bottom" ELSE "other"

RowLine(l, k, widths, aligns) == l.t = "row" /\ Len(l.cells) = k /\ l.widths = widths /\ l.aligns = aligns
\* do the lines p+1..p+m show the row ?
GoodRow(mode, row, out, p, m, widths, aligns) ==
  /\ \A j \in 1..m : RowLine(out[p + j], Len(widths), widths, aligns)
  /\ \A c \in 1..Len(widths) : GoodCell(mode, CellAt(row, c), widths[c], [j \in 1..m |-> out[p + j].cells[c]])

\* positions in the result reachable after each source line, with alignments
Advance(mode, st, line, out, widths) ==
  LET n == Len(out) IN
  IF line.kind = "rule"
  THEN [P |-> {p + 1 : p \in {q \in st.P : q < n /\ out[q + 1].t = "rule" /\ out[q + 1].widths = widths /\ out[q + 1].pos = RulePos(q + 1, n)}},
        al |-> RuleAligns(line, Len(widths))]
  ELSE [P |-> UNION {{p + m : m \in {x \in 1..(n - p) : GoodRow(mode, line, out, p, x, widths, st.al)}} : p \in st.P},
        al |-> st.al]
GoodLines(mode, src, out, widths) ==
  Len(out) \in FoldLeft(LAMBDA st, l : Advance(mode, st, l, out, widths), [P |-> {0}, al |-> DefaultAligns(Len(widths))], src).P

InDomain(mode, src, widths) ==
  \A k \in 1..Len(src) : src[k].kind = "row" =>
    \A c \in 1..Min2(Len(widths), Len(src[k].cells)) : CellInDomain(mode, src[k].cells[c], widths[c])

\* offsets of the separators
Offsets(left, widths) == {left + SumSeq([j \in 1..k |-> widths[j] + 1]) : k \in 0..Len(widths)}
=============================================================================
