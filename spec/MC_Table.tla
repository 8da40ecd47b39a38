------------------------------ MODULE MC_Table ------------------------------
(* Fitting any small table in any width, with any choice of widths, breaking *)
(* the cells with the reference breaker: the verdicts accept it, all lines   *)
(* have the same width and the same separators.  Also checks the reference   *)
(* breaker and the display of single lines.                                  *)
EXTENDS Table, TLC
CONSTANTS Widths, Rows
VARIABLES src, w, widths, out, phase
vars == << src, w, widths, out, phase >>

C(n) == [fg |-> "", bg |-> "", at |-> <<>>]
Ls(al) == [cs |-> C(0), al |-> al, ml |-> 1, mr |-> 0]
SC(c) == [c |-> c, cs |-> C(0)]
Skins == {[para |-> Ls("l"), code |-> Ls("l"), table |-> Ls(al), h |-> << Ls("c") >>, bold |-> C(0), italic |-> C(0), strike |-> C(0),
           icode |-> C(0), ell |-> C(0), bullet |-> SC(42), quote |-> SC(62), hr |-> SC(45), special |-> <<>>, mode |-> mode,
           tbc |-> [v |-> 124, h |-> 45, tl |-> 1000, tr |-> 1001, bl |-> 1002, br |-> 1003, lj |-> 1004, rj |-> 1005, tj |-> 1006, bj |-> 1007, x |-> 1008]]
          : al \in {"l", "c", "r"}, mode \in {"first"}}

P(s) == [kind |-> "p", d |-> 0, s |-> IF s = <<>> THEN <<>> ELSE << [c |-> s, f |-> 0] >>]
L(s) == [kind |-> "l", d |-> 0, s |-> << [c |-> s, f |-> 0] >>]
Texts == {P(<<>>), P(<< 97 >>), P(<< 97, 98, 32, 99, 100 >>), P(<< 97, 26085, 97, 98, 26085 >>), L(<< 97, 32, 98 >>)}
RowsOf == UNION {[1..n -> Texts] : n \in 1..2}
RulesOf == {<< "l" >>, << "c", "r" >>, << "u", "l", "c" >>}
Line == {[kind |-> "row", cells |-> r] : r \in RowsOf} \cup {[kind |-> "rule", aligns |-> a] : a \in RulesOf}

Init ==
  /\ src \in UNION {[1..n -> Line] : n \in 1..Rows}
  /\ w \in Widths
  /\ widths = <<>> /\ out = <<>> /\ phase = "start"

K == Kept(NCols(src), w)
Choose ==
  /\ phase = "start"
  /\ widths' \in {x \in [1..K -> 3..Max({3} \cup {Natural(src, "first", c) : c \in 1..K})] : GoodWidths(src, "first", w, x)}
  /\ phase' = "fit"
  /\ UNCHANGED << src, w, out >>

Comp(X) == IF X = <<>> THEN <<>> ELSE << [c |-> [j \in 1..Len(X) |-> X[j].c], f |-> 0] >>
Parts(cell, cw) ==
  IF CellLength("first", cell) <= cw THEN << cell >>
  ELSE LET g == Greedy(Flat(cell.s), CellRoom("first", cell, cw), cw)
       IN [j \in 1..Len(g) |-> [kind |-> IF j = 1 THEN cell.kind ELSE FollowKind(cell.kind), d |-> cell.d, s |-> Comp(g[j])]]
\* alignments above the line k of the source
AlignsAt(k) ==
  LET rules == {j \in 1..(k - 1) : src[j].kind = "rule"}
  IN IF rules = {} THEN DefaultAligns(Len(widths)) ELSE RuleAligns(src[Max(rules)], Len(widths))
Lines(k) ==
  IF src[k].kind = "rule" THEN << [t |-> "rule", pos |-> "", widths |-> widths] >>
  ELSE LET ps == [c \in 1..Len(widths) |-> Parts(CellAt(src[k], c), widths[c])]
           h == Max({Len(ps[c]) : c \in 1..Len(widths)})
       IN [j \in 1..h |-> [t |-> "row", cells |-> [c \in 1..Len(widths) |-> IF j <= Len(ps[c]) THEN ps[c][j] ELSE EmptyCell],
                          widths |-> widths, aligns |-> AlignsAt(k)]]
Fit ==
  /\ phase = "fit"
  /\ LET all == FlattenSeq([k \in 1..Len(src) |-> Lines(k)])
     IN out' = [j \in 1..Len(all) |-> IF all[j].t = "rule" THEN [all[j] EXCEPT !.pos = RulePos(j, Len(all))] ELSE all[j]]
  /\ phase' = "done"
  /\ UNCHANGED << src, w, widths >>
Done == phase = "done" /\ UNCHANGED vars
Next == Choose \/ Fit \/ Done

\* a width can always be found: no deadlock
Accepted == phase = "done" => GoodLines("first", src, out, widths)
Narrow == phase # "start" => TableWidth(widths) <= w \/ w = -1
Shown(sk, l) == IF l.t = "rule" THEN RuleCells(sk, l.pos, l.widths, w, TRUE)
                ELSE RowCells(sk, sk.mode, l.cells, l.widths, l.aligns, w, TRUE)
Aligned ==
  phase = "done" /\ InDomain("first", src, widths) =>
    \A sk \in Skins, j \in 1..Len(out) :
      LET cells == Shown(sk, out[j])
      IN CellsWidth(cells) = (IF w = -1 THEN TableWidth(widths) ELSE w)
GreedyOk ==
  phase = "fit" => \A k \in 1..Len(src) : src[k].kind = "row" =>
    \A c \in 1..Len(src[k].cells) : \A room \in 2..4 :
      LET S == Flat(src[k].cells[c].s) IN TextVerdict(S, Greedy(S, room, room), room) = "ok"
=============================================================================
