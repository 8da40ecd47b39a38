------------------------------- MODULE Output -------------------------------
(* The ways of showing a text: on which width each one formats it, what of  *)
(* it is shown where.                                                       *)
(*   w, h : size of the terminal (a fixed one if there is none)              *)
(*   kept : width for which a text kept by the program was formatted        *)
EXTENDS Render

\* part of a line, without width
Snippets == {"inline", "print_inline", "write_inline", "write_inline_on", "print_composite", "m_inline", "m_print_inline"}
\* texts which aren't wrapped
Unwrapped == {"text_none", "m_text", "raw"}
\* texts in a given width
Given == {"text", "text_parsed"}
\* texts wrapped for the terminal
Termed == {"term_text", "print_text", "write_text", "write_text_on", "m_term_text", "m_print_text",
           "print_expander", "print_owning_expander", "print_owning_expander_md"}
\* texts for an area
Windows == {"write_in_area", "write_in_area_on"}
InArea == Windows \cup {"area_text"}
\* views, which show on the standard output what they write elsewhere
Views == {"mad_view", "text_view", "list_view", "input_field"}
Ways == Snippets \cup Unwrapped \cup Given \cup Termed \cup InArea \cup {"print_kept"}

\* width in which the text is formatted, -1 for none
FormatWidth(s, e) ==
  CASE e.o \in Snippets \cup Unwrapped -> -1
    [] e.o \in Given -> e.n
    [] e.o \in Termed \cup {"keep"} -> s.w
    \* a column is left for a scrollbar
    [] e.o \in InArea -> e.area[3] - 1
    [] e.o = "print_kept" -> s.kept
\* width in which it's shown
ShowWidth(s, e) == IF e.o \in Windows THEN e.area[3] ELSE FormatWidth(s, e)
\* each line is followed by a new line
Ended(e) == e.o \notin Snippets

Step(s, e) ==
  CASE e.o = "resize" -> [s EXCEPT !.w = e.w, !.h = e.h]
    [] e.o = "keep" -> [s EXCEPT !.kept = s.w]
    [] OTHER -> s

\* template: sequence of [n, c]: name of a hole ("" for text) and chars
Value(vals, n) == {k \in 1..Len(vals) : vals[k].n = n}
Substituted(tpl, vals) ==
  FlattenSeq([k \in 1..Len(tpl) |->
    IF tpl[k].n = "" \/ Value(vals, tpl[k].n) = {} THEN tpl[k].c
    ELSE vals[CHOOSE j \in Value(vals, tpl[k].n) : TRUE].c])

\* what is seen of it, outside of tables: no blanks, no marks
Marks == {SP, 10, 42, 96, 35, 124, 62}
Seen(c) == SelectSeq(c, LAMBDA x : x \notin Marks)

\* lines of a raw text: nothing is interpreted
RECURSIVE RawLines(_)
RawLines(src) ==
  IF src = <<>> THEN <<>>
  ELSE LET nls == {k \in 1..Len(src) : src[k] = 10}
       IN IF nls = {} THEN << src >>
          ELSE LET k == CHOOSE k \in nls : \A l \in nls : k <= l
               IN << SubSeq(src, 1, k - 1) >> \o RawLines(SubSeq(src, k + 1, Len(src)))

\* the cells of a formatted line
LineCells(sk, l, dw, right) ==
  CASE l.t = "n" -> CompositeCells(sk, sk.mode, l.kind, l.d, l.s, l.bw, "l", dw, right, TRUE)
    [] l.t = "row" -> RowCells(sk, sk.mode, l.cells, l.widths, l.aligns, dw, right)
    [] l.t = "rule" -> RuleCells(sk, l.pos, l.widths, dw, right)
    [] l.t = "hr" -> HrCells(sk, dw)
\* the rows of an area
AreaCells(sk, lines, area) ==
  [j \in 1..area[4] |-> IF j <= Len(lines) THEN LineCells(sk, lines[j], area[3], TRUE)
                        ELSE Spaces(area[3], CS(sk.para.cs))]
Expected(s, e, sk, lines) ==
  IF e.o \in Windows THEN AreaCells(sk, lines, e.area)
  ELSE [j \in 1..Len(lines) |-> LineCells(sk, lines[j], ShowWidth(s, e), FALSE)]
=============================================================================
