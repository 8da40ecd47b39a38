-------------------------------- MODULE Ask --------------------------------
(* Questions: lines are typed until one is the key of an answer, or is      *)
(* empty when there's a default.  A question is [md, ans, d]: lines of      *)
(* markdown, answers [k, md], and a sequence holding the default, if any.   *)
(* Lines are sequences of code points, without their end.                   *)
EXTENDS Inline

RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # <<>> /\ Blank(s[Len(s)]) THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s

Keys(q) == {q.ans[k].k : k \in 1..Len(q.ans)}

\* the default may be something else
Exotic(q) == q.d # <<>> /\ q.d[1] \notin Keys(q)

\* what a line does: "key", "default", or "again"
OnLine(q, l) ==
  LET x == TrimEnd(l) IN
  IF x = <<>> /\ q.d # <<>> THEN "default"
  ELSE IF x \in Keys(q) THEN "key"
  ELSE "again"

\* the asking: pos lines already read, refused of them by this question, r
\* the result: <<>> while asking, << "ok", value >>, or << "end" >>
Start(pos) == [pos |-> pos, refused |-> 0, r |-> <<>>]
Read(q, lines, st) ==
  IF st.pos >= Len(lines) THEN [st EXCEPT !.r = IF q.d # <<>> THEN << "ok", q.d[1] >> ELSE << "end" >>]
  ELSE LET l == lines[st.pos + 1]
           w == OnLine(q, l)
       IN CASE w = "default" -> [st EXCEPT !.pos = @ + 1, !.r = << "ok", q.d[1] >>]
            [] w = "key" -> [st EXCEPT !.pos = @ + 1, !.r = << "ok", TrimEnd(l) >>]
            [] OTHER -> [st EXCEPT !.pos = @ + 1, !.refused = @ + 1]
RECURSIVE Asked(_, _, _)
Asked(q, lines, st) == IF st.r # <<>> THEN st ELSE Asked(q, lines, Read(q, lines, st))

\* the macro doesn't ask the questions with an exotic default
MacroRefuses(q) == q.mac = 1 /\ Exotic(q)

\* what's printed first: the question, then the answers after their key,
\* the default one being shown bold
TextCells(sk, md, width) == CompositeCells(sk, sk.mode, "p", 0, Fill(Parse(md), <<>>), -1, "l", width, FALSE, TRUE)
PLAINKEY == << 91, 36, 48, 93, 32 >>
BOLDKEY == << 91, 42, 42, 36, 48, 42, 42, 93, 32 >>
AnswerCells(sk, q, a, width) ==
  InlineCells(sk, Fill(Parse(IF q.d = << a.k >> THEN BOLDKEY ELSE PLAINKEY), << a.k >>)) \o TextCells(sk, a.md, width)
QuestionRows(sk, q, width) ==
  [k \in 1..Len(q.md) |-> TextCells(sk, q.md[k], width)] \o [k \in 1..Len(q.ans) |-> AnswerCells(sk, q, q.ans[k], width)]
=============================================================================
