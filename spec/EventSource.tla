----------------------------- MODULE EventSource -----------------------------
(* What an event source makes of what's typed.  An input is                  *)
(* [k, s, c, m, x, y, kd]: kind ("key", "mouse", "other", "none" for what    *)
(* isn't understood), name, code of the char (0 if none), modifiers, cell of *)
(* the mouse, and kd: 0 for a press, 1 for a repetition, 2 for a release.    *)
(* Options: move, drag, raw tell what's discarded; combining and mandate how *)
(* the keys are combined.                                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

SHIFT == 1
CTRL == 2
ALT == 4
HasMod(m, n) == (m \div n) % 2 = 1

SeqStart(e) == e.k = "key" /\ e.s = "Char('_')" /\ e.m = ALT
SeqEnd(e) == e.k = "key" /\ e.s = "Char('\\\\')" /\ e.m = ALT
SeqPart(e) == e.k = "key" /\ ~HasMod(e.m, ALT) /\ ~HasMod(e.m, CTRL)

(* Keys and their combinations: the state is [down, shift], the keys waiting *)
(* for a release, and whether shift is down.  A combination is [codes, m]:   *)
(* its keys, each the code of a char or a name, in any order, and its        *)
(* modifiers.  There's at most 3 keys in a combination.                      *)
NoKeys == [down |-> <<>>, shift |-> FALSE]
IsShift(e) == e.s \in {"Modifier(LeftShift)", "Modifier(RightShift)"}
Simple(e) == e.m = 0 /\ e.s # "Char(' ')"
BitOr(m, n) == (IF HasMod(m, SHIFT) \/ HasMod(n, SHIFT) THEN SHIFT ELSE 0) + (IF HasMod(m, CTRL) \/ HasMod(n, CTRL) THEN CTRL ELSE 0)
  + (IF HasMod(m, ALT) \/ HasMod(n, ALT) THEN ALT ELSE 0)
RECURSIVE ModsOf(_)
ModsOf(keys) == IF keys = <<>> THEN 0 ELSE BitOr(keys[1].m, ModsOf(Tail(keys)))
\* keys held together: letters are in uppercase when there's shift, and
\* uppercase letters imply shift
Together(keys) ==
  LET m == ModsOf(keys) IN
  [codes |-> [k \in 1..Len(keys) |-> << IF HasMod(m, SHIFT) /\ keys[k].c \in 97..122 THEN keys[k].c - 32 ELSE keys[k].c,
                                        IF keys[k].c > 0 THEN "" ELSE keys[k].s >>],
   m |-> IF \E k \in 1..Len(keys) : keys[k].c \in 65..90 THEN BitOr(m, SHIFT) ELSE m]
NoComb == [codes |-> <<>>, m |-> 0]
Held(c) == IF c.down = <<>> THEN NoComb ELSE [Together(c.down) EXCEPT !.m = IF c.shift THEN BitOr(@, SHIFT) ELSE @]
\* same combination
SameComb(x, y) ==
  /\ x.m = y.m
  /\ Len(x.codes) = Len(y.codes)
  /\ \A k \in 1..Len(x.codes) :
       Cardinality({j \in 1..Len(x.codes) : x.codes[j] = x.codes[k]}) = Cardinality({j \in 1..Len(y.codes) : y.codes[j] = x.codes[k]})
\* [comb: the combination completed or NoComb, c: state]
Combine(e, c, o) ==
  IF ~o.combining THEN [comb |-> IF e.kd = 0 THEN Together(<< e >>) ELSE NoComb, c |-> c]
  ELSE IF IsShift(e) THEN [comb |-> NoComb, c |-> [c EXCEPT !.shift = e.kd # 2]]
  ELSE IF o.mandate /\ Simple(e) /\ ~c.shift /\ c.down = <<>> THEN
    IF e.kd = 2 THEN [comb |-> NoComb, c |-> c] ELSE [comb |-> Together(<< e >>), c |-> NoKeys]
  ELSE CASE e.kd = 0 ->
              LET d == [c EXCEPT !.down = Append(@, e)]
              IN IF Len(d.down) = 3 THEN [comb |-> Held(d), c |-> NoKeys] ELSE [comb |-> NoComb, c |-> d]
         [] e.kd = 2 -> [comb |-> Held(c), c |-> NoKeys]
         [] OTHER -> [comb |-> Held(c), c |-> c]

(* The source: seq, the keys of the sequence begun (<<>> if none), keys, the *)
(* state of the combinations.                                                *)
Source == [seq |-> <<>>, keys |-> NoKeys]

Discarded(e, o) ==
  \/ e.k = "none"
  \/ e.k = "mouse" /\ e.s = "Moved" /\ o.move
  \/ e.k = "mouse" /\ e.s \in {"Drag(Left)", "Drag(Middle)", "Drag(Right)"} /\ o.drag

\* events going through the combinations, then maybe delivered: [src, out]
RECURSIVE Through(_, _, _)
Through(src, es, o) ==
  IF es = <<>> THEN [src |-> src, out |-> <<>>]
  ELSE LET e == es[1] IN
       IF e.k # "key" THEN
         LET t == Through(src, Tail(es), o)
         IN [t EXCEPT !.out = << [e |-> e, comb |-> NoComb] >> \o @]
       ELSE
         LET c == Combine(e, src.keys, o)
             t == Through([src EXCEPT !.keys = c.c], Tail(es), o)
         IN IF o.raw /\ c.comb = NoComb THEN t ELSE [t EXCEPT !.out = << [e |-> e, comb |-> c.comb] >> \o @]

\* an input: the new source, the events to deliver, the sequence completed
OnInput(src, e, o) ==
  IF e.k = "none" THEN [src |-> src, out |-> <<>>, seq |-> <<>>]
  ELSE IF src.seq = <<>> /\ SeqStart(e) THEN [src |-> [src EXCEPT !.seq = << e >>], out |-> <<>>, seq |-> <<>>]
  ELSE IF src.seq # <<>> /\ SeqEnd(e) THEN [src |-> [src EXCEPT !.seq = <<>>], out |-> <<>>, seq |-> Append(src.seq, e)]
  ELSE IF src.seq # <<>> /\ SeqPart(e) THEN [src |-> [src EXCEPT !.seq = Append(@, e)], out |-> <<>>, seq |-> <<>>]
  ELSE LET es == src.seq \o (IF Discarded(e, o) THEN <<>> ELSE << e >>)
           t == Through([src EXCEPT !.seq = <<>>], es, o)
       IN [src |-> t.src, out |-> t.out, seq |-> <<>>]

(* Double clicks: up is the time and cell of the last release of the left    *)
(* button, or <<>>.  Times are in microseconds, rounded down.                *)
DELAY == 700000
Left(e) == e.k = "mouse" /\ e.s \in {"Down(Left)", "Up(Left)"}
LeftUp(e) == e.k = "mouse" /\ e.s = "Up(Left)"
NearUp(up, e) == Left(e) /\ up # <<>> /\ up[1].x = e.x /\ up[1].y = e.y
DoubleClickIs(up, e, t, dbl) ==
  IF ~NearUp(up, e) THEN ~dbl
  ELSE LET d == t - up[1].t IN
       IF d < DELAY - 1 THEN dbl ELSE IF d > DELAY THEN ~dbl ELSE TRUE
OnDelivered(up, e, t) == IF LeftUp(e) THEN << [t |-> t, x |-> e.x, y |-> e.y] >> ELSE up

SEQS == 10     \* capacity of the channel of the sequences
=============================================================================
