------------------------------- MODULE Render -------------------------------
(* How a formatted line is displayed: the sequence of its cells.            *)
(*                                                                          *)
(* A compound style is [fg, bg, at]: colors ("" for none), set of           *)
(* attributes.  A line style is [cs, al, ml, mr].  A cell is [c, s]: code   *)
(* point and compound style.                                                *)
EXTENDS Wrap

\* styles as read from JSON (attributes in a sequence)
CS(x) == [fg |-> x.fg, bg |-> x.bg, at |-> ToSet(x.at)]
\* b over a
Over(a, b) == [fg |-> IF b.fg # "" THEN b.fg ELSE a.fg,
               bg |-> IF b.bg # "" THEN b.bg ELSE a.bg,
               at |-> a.at \cup b.at]

LineStyle(sk, kind, level) ==
  CASE kind = "c" -> sk.code
    [] kind = "h" -> sk.h[level]
    [] OTHER -> sk.para

Bit(f, n) == (f \div n) % 2 = 1
CompoundStyle(sk, ls, cp) ==
  IF cp.c = << ELL >> THEN CS(sk.ell)
  ELSE LET s0 == CS(ls.cs)
           s1 == IF Bit(cp.f, 2) THEN Over(s0, CS(sk.italic)) ELSE s0
           s2 == IF Bit(cp.f, 4) THEN Over(s1, CS(sk.strike)) ELSE s1
           s3 == IF Bit(cp.f, 1) THEN Over(s2, CS(sk.bold)) ELSE s2
       IN IF Bit(cp.f, 8) THEN Over(s3, CS(sk.icode)) ELSE s3

Cells(chars, s) == [j \in 1..Len(chars) |-> [c |-> chars[j], s |-> s]]
Spaces(n, s) == [j \in 1..n |-> [c |-> SP, s |-> s]]
One(sc) == << [c |-> sc.c, s |-> CS(sc.cs)] >>

\* a compound may be replaced by a special char
CompoundCells(sk, ls, cp) ==
  LET hits == SelectSeq(sk.special, LAMBDA x : x.c = cp.c /\ x.f = cp.f)
  IN IF hits # <<>> THEN One(hits[1].by) ELSE Cells(cp.c, CompoundStyle(sk, ls, cp))

Mark(sk, mode, kind, d) ==
  LET para == CS(sk.para.cs) IN
  CASE kind = "l" -> Spaces(d, para) \o One(sk.bullet) \o Spaces(1, para)
    [] kind = "f" -> Spaces(Prefix("f", d, mode), para)
    [] kind = "q" -> One(sk.quote) \o Spaces(1, para)
    [] OTHER -> <<>>

CompsWidth(comps) == SumSeq([k \in 1..Len(comps) |-> TextWidth(comps[k].c)])
VisibleLength(mode, kind, d, comps) == Prefix(kind, d, mode) + CompsWidth(comps)

\* padding at left and right of something in a wider place
Pads(al, inner, outer) ==
  IF inner >= outer THEN << 0, 0 >>
  ELSE CASE al = "r" -> << outer - inner, 0 >>
         [] al = "c" -> << (outer - inner) \div 2, outer - inner - (outer - inner) \div 2 >>
         [] OTHER -> << 0, outer - inner >>

\* spw: width of the padded inner part (-1: none), spal its alignment
\* outer: width of the place (-1: unlimited)
CompositeCells(sk, mode, kind, d, comps, spw, spal, outer, right, margins) ==
  LET ls == LineStyle(sk, kind, d)
      para == CS(sk.para.cs)
      m == IF ~margins THEN << 0, 0 >>
           ELSE IF outer = -1 THEN << ls.ml, ls.mr >> ELSE Margins(ls.ml, ls.mr, outer)
      vl == VisibleLength(mode, kind, d, comps)
      ip == IF spw = -1 THEN << 0, 0 >> ELSE Pads(spal, vl, spw)
      inner == IF spw = -1 THEN vl ELSE spw
      op == IF outer = -1 THEN << 0, 0 >> ELSE Pads(ls.al, inner + m[1] + m[2], outer)
  IN   Spaces(op[1] + m[1], para)
    \o Spaces(ip[1], CS(ls.cs))
    \o Mark(sk, mode, kind, d)
    \o FlattenSeq([k \in 1..Len(comps) |-> CompoundCells(sk, ls, comps[k])])
    \o Spaces(ip[2], CS(ls.cs))
    \o (IF right THEN Spaces(op[2] + m[2], para) ELSE <<>>)

TableWidth(widths) == 1 + SumSeq([k \in 1..Len(widths) |-> widths[k] + 1])
TableOuter(sk, widths, outer) == IF outer = -1 THEN << 0, 0 >> ELSE Pads(sk.table.al, TableWidth(widths), outer)

\* cells: sequence of [kind, d, s], with the widths and alignments of the columns
RowCells(sk, mode, cells, widths, aligns, outer, right) ==
  LET para == CS(sk.para.cs)
      bar == << [c |-> sk.tbc.v, s |-> CS(sk.table.cs)] >>
      op == TableOuter(sk, widths, outer)
  IN   Spaces(op[1], para)
    \o FlattenSeq([k \in 1..Len(cells) |->
         bar \o CompositeCells(sk, mode, cells[k].kind, cells[k].d, cells[k].s, widths[k], aligns[k], -1, FALSE, FALSE)])
    \o bar
    \o (IF right THEN Spaces(op[2], para) ELSE <<>>)

RuleCells(sk, pos, widths, outer, right) ==
  LET para == CS(sk.para.cs)
      ts == CS(sk.table.cs)
      op == TableOuter(sk, widths, outer)
      lc == CASE pos = "top" -> sk.tbc.tl [] pos = "bottom" -> sk.tbc.bl [] OTHER -> sk.tbc.lj
      mc == CASE pos = "top" -> sk.tbc.tj [] pos = "bottom" -> sk.tbc.bj [] OTHER -> sk.tbc.x
      rc == CASE pos = "top" -> sk.tbc.tr [] pos = "bottom" -> sk.tbc.br [] OTHER -> sk.tbc.rj
  IN   Spaces(op[1], para)
    \o Cells(<< lc >>, ts)
    \o FlattenSeq([k \in 1..Len(widths) |-> Cells((IF k > 1 THEN << mc >> ELSE <<>>) \o Rep(sk.tbc.h, widths[k]), ts)])
    \o Cells(<< rc >>, ts)
    \o (IF right THEN Spaces(op[2], para) ELSE <<>>)

HrCells(sk, outer) == IF outer = -1 THEN <<>> ELSE Cells(Rep(sk.hr.c, outer), CS(sk.hr.cs))

\* what is observed: o.c code points, o.x indexes of styles in sty (a zero
\* width char is shown with the style of the char before it)
Shows(o, sty, cells) ==
  /\ Len(o.c) = Len(cells)
  /\ \A j \in 1..Len(cells) : o.c[j] = cells[j].c
  /\ \A j \in 1..Len(cells) : Width(cells[j].c) = 0 \/ CS(sty[o.x[j]]) = cells[j].s
CellsWidth(cells) == SumSeq([j \in 1..Len(cells) |-> Width(cells[j].c)])
=============================================================================
