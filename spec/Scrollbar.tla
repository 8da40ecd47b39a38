----------------------------- MODULE Scrollbar -----------------------------
(* The thumb of a vertical scrollbar, rows relative to the track (0-based). *)
EXTENDS Arith

Present(content, avail) == content > avail

\* Rows of the thumb (both included) for a content of `content` rows scrolled
\* by `scroll` rows, in a track of `avail` rows (avail >= 1, content > avail).
\* @type: (Int, Int, Int) => <<Int, Int>>;
Thumb(scroll, content, avail) ==
  LET before == (scroll * avail) \div content
      top == Min2(IF before = 0 /\ scroll > 0 THEN 1 ELSE before, avail - 1)
      full == top + (avail * avail) \div content
      bot == IF scroll + avail < content /\ avail > 3
             THEN Max2(Min2(full, avail - 2), top) ELSE full
  IN  << top, Min2(bot, avail - 1) >>

\* What any scrollbar must satisfy, whatever the rounding chosen
\* @type: (<<Int, Int>>, Int, Int, Int) => Bool;
GoodThumb(t, scroll, content, avail) ==
  /\ 0 <= t[1] /\ t[1] <= t[2] /\ t[2] <= avail - 1
  /\ scroll = 0 => t[1] = 0
  /\ scroll + avail >= content => t[2] = avail - 1
  /\ (avail > 3 /\ scroll > 0) => t[1] > 0
  /\ (avail > 3 /\ scroll + avail < content) => (t[2] < avail - 1 \/ t[1] = t[2])
=============================================================================
