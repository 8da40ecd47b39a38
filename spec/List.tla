-------------------------------- MODULE List --------------------------------
(* The list view: rows with an optional filter and an optional order, a      *)
(* selection, a scroll counted in displayed rows, sized columns.             *)
(*   rows : sequence of [id, k (sort key), g (group, for filters), c (cells)] *)
(*   flt  : 0 no filter, else the number of a filter (see Pass)              *)
(*   ord  : 0 insertion order, 1 ascending keys, 2 descending keys           *)
(*   sel  : id of the selected row, 0 when there's none                      *)
(*   sc   : number of displayed rows hidden above the body                   *)
(*   a    : area <<left, top, width, height>>                                *)
(*   w    : current widths of the columns                                    *)
(*   cols : the columns [t title, mi, ma, al, sty]                           *)
EXTENDS Chars, Scrollbar, Viewport

Pass(f, r) == CASE f = 0 -> TRUE
                [] f = 1 -> r.g = 1
                [] f = 2 -> r.g # 1
                [] f = 3 -> FALSE
                [] f = 4 -> r.k % 2 = 0
                [] OTHER -> r.id % 3 = 0
Shown(s) == SelectSeq(s.rows, LAMBDA r : Pass(s.flt, r))
NbShown(s) == Len(Shown(s))
Body(s) == IF s.a[4] > 2 THEN s.a[4] - 2 ELSE s.a[4]
Ids(rs) == [k \in 1..Len(rs) |-> rs[k].id]

\* index of an id in a sequence of rows, 0 when missing
IndexOf(rs, id) == LET K == {k \in 1..Len(rs) : rs[k].id = id} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE

Before(o, x, y) == IF o = 1 THEN x.k < y.k ELSE x.k > y.k
\* stable sort
InsertSorted(o, rs, x) ==
  LET n == Cardinality({k \in 1..Len(rs) : ~Before(o, x, rs[k])})
  IN  SubSeq(rs, 1, n) \o << x >> \o SubSeq(rs, n + 1, Len(rs))
Sorted(o, rs) == IF o = 0 THEN rs ELSE FoldLeft(LAMBDA acc, x : InsertSorted(o, acc, x), <<>>, rs)

MaxScroll(s) == ListMaxScroll(NbShown(s), Body(s))
BottomScroll(s) == ListBottomScroll(NbShown(s), Body(s))
ShowsBottom(s) == s.sc + Body(s) >= NbShown(s)

\* scroll so that the selected row is shown, with some context if possible
Reveal(s) ==
  LET \* a hidden selected row counts for the next displayed one
      idx == IndexOf(s.rows, s.sel)
      p == Len(SelectSeq(SubSeq(s.rows, 1, idx - 1), LAMBDA r : Pass(s.flt, r)))
  IN  IF s.sel = 0 THEN s ELSE [s EXCEPT !.sc = Revealing(p, s.sc, NbShown(s), Body(s))]

Scroll(s, n) == Reveal([s EXCEPT !.sc = ListScrolled(n, s.sc, NbShown(s), Body(s))])

Select(s, id) == Reveal([s EXCEPT !.sel = id])
First(s) == IF NbShown(s) = 0 THEN [s EXCEPT !.sel = 0] ELSE Select(s, Shown(s)[1].id)
Last1(s) == IF NbShown(s) = 0 THEN [s EXCEPT !.sel = 0] ELSE Select(s, Shown(s)[NbShown(s)].id)
\* next (or previous) displayed row, cyclically
Next1(s, up) ==
  LET d == NbShown(s) IN
  IF d = 0 THEN s
  ELSE IF d = 1 \/ s.sel = 0 THEN Select(s, Shown(s)[(IF s.sc < d THEN s.sc ELSE 0) + 1].id)
  ELSE
  LET n == Len(s.rows)
      cur == IndexOf(s.rows, s.sel)
      at(k) == ((cur - 1 + (IF up THEN n - k ELSE k)) % n) + 1
      k == CHOOSE j \in 1..n : Pass(s.flt, s.rows[at(j)]) /\ \A m \in 1..(j-1) : ~Pass(s.flt, s.rows[at(m)])
  IN  Select(s, s.rows[at(k)].id)

AddRow(s, r) ==
  LET stick == s.ord = 0 /\ ShowsBottom(s)
      s2 == [s EXCEPT !.rows = Sorted(s.ord, Append(s.rows, r))]
  IN  IF stick THEN [s2 EXCEPT !.sc = BottomScroll(s2)] ELSE s2

\* widths: minimal ones when there's no space, else the columns take the
\* excess from left to right up to their maximal width
Widths(s) ==
  LET avail == s.a[3] - (Len(s.cols) - 1) - 1
      mins == SumSeq([k \in 1..Len(s.cols) |-> s.cols[k].mi])
      excess == avail - mins
      give == FoldLeft(LAMBDA acc, c : LET d == Min2(c.ma - c.mi, acc.e)
                                       IN [e |-> acc.e - d, w |-> Append(acc.w, c.mi + d)],
                       [e |-> excess, w |-> <<>>], s.cols)
  IN  IF excess <= 0 THEN [k \in 1..Len(s.cols) |-> s.cols[k].mi] ELSE give.w
Resize(s, a) ==
  LET s2 == [s EXCEPT !.a = a]
      s3 == [s2 EXCEPT !.w = Widths(s2)]
  IN  IF ShowsBottom(s3) THEN [s3 EXCEPT !.sc = BottomScroll(s3)] ELSE s3

Step(s, e) ==
  CASE e.o = "add_row" -> AddRow(s, e.row)
    [] e.o = "sort" -> [s EXCEPT !.ord = e.n]
    [] e.o = "clear_rows" -> [s EXCEPT !.rows = <<>>, !.sc = 0, !.sel = 0]
    [] e.o = "set_filter" -> [s EXCEPT !.flt = e.n, !.sc = 0]
    [] e.o = "remove_filter" -> [s EXCEPT !.flt = 0]
    [] e.o = "scroll_to_bottom" -> [s EXCEPT !.sc = BottomScroll(s)]
    [] e.o = "try_scroll_lines" -> Scroll(s, e.n)
    [] e.o = "try_scroll_pages" -> Scroll(s, e.n * Body(s))
    [] e.o = "try_select_next" -> Next1(s, FALSE)
    [] e.o = "try_select_prev" -> Next1(s, TRUE)
    [] e.o = "select_first_line" -> First(s)
    [] e.o = "select_last_line" -> Last1(s)
    [] e.o = "make_selection_visible" -> Reveal(s)
    [] e.o = "unselect" -> [s EXCEPT !.sel = 0]
    [] e.o = "resize" -> Resize(s, e.a)

------------------------------------------------------------------------------
(* Drawing: rows are strings of chars with, in parallel, style names        *)
VBAR == 9474
TEE == 9516
CROSS == 9532
HBAR == 9472
Styled(c, s) == [c |-> c, s |-> Rep(s, Len(c))]
Cat(x, y) == [c |-> x.c \o y.c, s |-> x.s \o y.s]
Concat(xs) == FoldLeft(Cat, [c |-> <<>>, s |-> <<>>], xs)

Pad(txt, w, al) ==
  IF Len(txt) >= w THEN Take(txt, w)
  ELSE LET gap == w - Len(txt)
           lp == CASE al = "r" -> gap [] al = "c" -> gap \div 2 [] OTHER -> 0
       IN  Rep(SP, lp) \o txt \o Rep(SP, gap - lp)

\* columns with the same title as their predecessor go below one title
\* (first columns of the titles)
TitleStarts(s) == {k \in 1..Len(s.cols) : k = 1 \/ s.cols[k].t # s.cols[k-1].t}
TitleEnd(s, k) == CHOOSE j \in k..Len(s.cols) : (j = Len(s.cols) \/ (j + 1) \in TitleStarts(s)) /\ \A m \in (k+1)..j : m \notin TitleStarts(s)
TitleRow(s) ==
  Concat([k \in 1..Len(s.cols) |->
     IF k \notin TitleStarts(s) THEN Styled(<<>>, "")
     ELSE LET j == TitleEnd(s, k)
              w == SumSeq(SubSeq(s.w, k, j)) + (j - k)
          IN  Cat(IF k = 1 THEN Styled(<<>>, "") ELSE Styled(<< VBAR >>, "t"), Styled(Pad(s.cols[k].t, w, "c"), "h"))])
RuleRow(s) ==
  Concat([k \in 1..Len(s.cols) |->
     Cat(IF k = 1 THEN Styled(<<>>, "") ELSE Styled(<< IF k \in TitleStarts(s) THEN CROSS ELSE TEE >>, "t"),
         Styled(Rep(HBAR, s.w[k]), "t"))])
BodyRow(s, r) ==
  LET b == IF r.id = s.sel THEN "+" ELSE "" IN
  Concat([k \in 1..Len(s.cols) |->
     Cat(IF k = 1 THEN Styled(<<>>, "") ELSE Styled(<< VBAR >>, "t" \o b),
         Styled(Pad(r.c[k], s.w[k], s.cols[k].al), s.cols[k].sty \o b))])
HasBar(s) == Present(NbShown(s), Body(s))
TableWidth(s) == SumSeq(s.w) + Len(s.cols) - 1
=============================================================================
