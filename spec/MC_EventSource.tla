--------------------------- MODULE MC_EventSource ----------------------------
(* The thread of the source, the one which uses it and the terminal, with    *)
(* their channels: whatever is typed, discarded, and whatever the            *)
(* interleaving, what's delivered is what EventSource.tla says, one event at *)
(* a time, nothing is lost, and the end comes when it's asked.               *)
EXTENDS EventSource, TLC
CONSTANTS MaxTyped
VARIABLES
  opt,
  typed,     \* all that was typed
  nread,     \* number of inputs read by the thread
  pc,        \* of the thread: "read", "send", "blocked", "end"
  src, todo, \* its state
  ch,        \* channel of events
  got,       \* events received
  acks,      \* channel back: FALSE to go on, TRUE to quit
  seqs,      \* sequences sent
  count,
  user       \* "wait" for an event, "busy" with one, "quit"
vars == << opt, typed, nread, pc, src, todo, ch, got, acks, seqs, count, user >>

Key(s, c, m, kd) == [k |-> "key", s |-> s, c |-> c, m |-> m, x |-> 0, y |-> 0, kd |-> kd]
Mouse(s) == [k |-> "mouse", s |-> s, c |-> 0, m |-> 0, x |-> 1, y |-> 1, kd |-> 0]
A == Key("Char('a')", 97, 0, 0)
B == Key("Char('\\\\')", 92, ALT, 0)
Inputs == {Key("Char('_')", 95, ALT, 0), B, A, Key("Char('a')", 97, 0, 2), Key("Char('a')", 97, CTRL, 0), Mouse("Moved"), Mouse("Drag(Left)"), [Mouse("") EXCEPT !.k = "none"]}

Init ==
  /\ opt \in [move : BOOLEAN, drag : {FALSE}, raw : BOOLEAN, combining : BOOLEAN, mandate : {TRUE}]
  /\ typed = <<>> /\ nread = 0 /\ pc = "read" /\ src = Source /\ todo = <<>>
  /\ ch = <<>> /\ got = <<>> /\ acks = <<>> /\ seqs = <<>> /\ count = 0 /\ user = "wait"

Type ==
  /\ Len(typed) < MaxTyped
  /\ \E e \in Inputs : typed' = Append(typed, e)
  /\ UNCHANGED << opt, nread, pc, src, todo, ch, got, acks, seqs, count, user >>
ReadOne ==
  /\ pc = "read" /\ nread < Len(typed)
  /\ LET r == OnInput(src, typed[nread + 1], opt) IN
       /\ src' = r.src
       /\ todo' = r.out
       /\ seqs' = IF r.seq # <<>> THEN Append(seqs, r.seq) ELSE seqs
       /\ pc' = IF r.out = <<>> THEN "read" ELSE "send"
  /\ nread' = nread + 1
  /\ UNCHANGED << opt, typed, ch, got, acks, count, user >>
Send ==
  /\ pc = "send"
  /\ count' = count + 1
  /\ ch' = Append(ch, todo[1].e)
  /\ todo' = Tail(todo)
  /\ pc' = "blocked"
  /\ UNCHANGED << opt, typed, nread, src, got, acks, seqs, user >>
Resume ==
  /\ pc = "blocked" /\ acks # <<>>
  /\ acks' = Tail(acks)
  /\ pc' = IF Head(acks) THEN "end" ELSE IF todo # <<>> THEN "send" ELSE "read"
  /\ UNCHANGED << opt, typed, nread, src, todo, ch, got, seqs, count, user >>
Receive ==
  /\ user = "wait" /\ ch # <<>>
  /\ got' = Append(got, Head(ch))
  /\ ch' = Tail(ch)
  /\ user' = "busy"
  /\ UNCHANGED << opt, typed, nread, pc, src, todo, acks, seqs, count >>
Unblock ==
  /\ user = "busy"
  /\ \E q \in BOOLEAN : acks' = Append(acks, q) /\ user' = IF q THEN "quit" ELSE "wait"
  /\ UNCHANGED << opt, typed, nread, pc, src, todo, ch, got, seqs, count >>
Next == Type \/ ReadOne \/ Send \/ Resume \/ Receive \/ Unblock
Spec == Init /\ [][Next]_vars /\ WF_vars(ReadOne) /\ WF_vars(Send) /\ WF_vars(Resume) /\ WF_vars(Receive) /\ WF_vars(Unblock)

\* the function of what was read
RECURSIVE Run(_, _, _)
Run(s, o, q) == \* state, inputs left, [out, seqs]
  IF o = <<>> THEN [q EXCEPT !.src = s]
  ELSE LET r == OnInput(s, o[1], opt)
       IN Run(r.src, Tail(o), [q EXCEPT !.out = @ \o [k \in 1..Len(r.out) |-> r.out[k].e], !.seqs = IF r.seq = <<>> THEN @ ELSE Append(@, r.seq)])
All == Run(Source, SubSeq(typed, 1, nread), [out |-> <<>>, seqs |-> <<>>, src |-> Source])

InOrder == got \o ch \o [k \in 1..Len(todo) |-> todo[k].e] = All.out /\ seqs = All.seqs
OneAtATime == Len(ch) <= 1 /\ (user = "busy" => ch = <<>> /\ pc \in {"blocked"})
Counted == count = Len(got) + Len(ch)
\* everything read is delivered, or in a sequence complete or not, or was
\* discarded by the options
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Times(e, s) == Cardinality({k \in 1..Len(s) : s[k] = e})
Optional(e) ==
  \/ Discarded(e, opt)
  \/ e.k = "key" /\ opt.raw /\ (opt.combining \/ e.kd # 0)
NothingLost ==
  \A e \in Inputs : ~Optional(e) =>
    Times(e, SubSeq(typed, 1, nread)) = Times(e, All.out) + Times(e, Flat(All.seqs)) + Times(e, All.src.seq)
NothingAdded ==
  \A e \in Inputs :
    Times(e, SubSeq(typed, 1, nread)) >= Times(e, All.out) + Times(e, Flat(All.seqs)) + Times(e, All.src.seq)
\* a sequence is what its start and its end enclose
SeqShape == \A k \in 1..Len(seqs) :
  LET s == seqs[k] IN SeqStart(s[1]) /\ SeqEnd(s[Len(s)]) /\ \A j \in 2..(Len(s) - 1) : SeqPart(s[j])
Ends == (user = "quit") ~> (pc = "end")
Silent == [][pc = "end" => ch' = ch \/ Len(ch') < Len(ch)]_vars
Delivered == \A n \in 1..MaxTyped : (Len(typed) >= n /\ user # "quit") ~> (nread >= n \/ user = "quit")
=============================================================================
