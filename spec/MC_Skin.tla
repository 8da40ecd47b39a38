------------------------------- MODULE MC_Skin -------------------------------
(* Design check of skins: whatever the history of changes and descriptions, *)
(* a skin is fully said by its description.                                 *)
EXTENDS Skin, TLC
CONSTANTS MaxSteps, Small
VARIABLES sk, n
vars == << sk, n >>

Line0 == [cs |-> NoStyle, al |-> "u", ml |-> 0, mr |-> 0]
Char0 == [c |-> 42, cs |-> NoStyle]
Blank0 == [para |-> Line0, code |-> Line0, table |-> Line0, h |-> << Line0, Line0 >>,
  bold |-> NoStyle, italic |-> NoStyle, strike |-> NoStyle, icode |-> NoStyle, ell |-> NoStyle,
  bullet |-> Char0, quote |-> Char0, hr |-> Char0, track |-> Char0, thumb |-> Char0, tb |-> "rounded", mode |-> "first", sp |-> << Char0 >>]
Default0 == [Blank0 EXCEPT !.bold = [NoStyle EXCEPT !.at = {"1"}], !.h[1].al = "c", !.mode = "block"]

Colors == IF Small THEN {<< 9 >>, << -1 >>} ELSE {<< 9 >>, << 1, 2, 3 >>, << -1 >>}
Changes == {[o |-> o, c |-> x] : o \in {"set_headers_fg", "set_headers_bg", "set_global_bg", "set_fg", "set_bg"}, x \in Colors}
           \cup {[o |-> "limit_to_ascii"], [o |-> "no_style"]}
T(s) == TextOf(s)
Red == Tok("col", << 9 >>)
Mark == Tok("chr", << 124 >>)
Texts == {T(<< Red >>), T(<< Mark, Tok("none", <<>>), Red, Tok("att", << "4" >>) >>), T(<< Tok("dim", << 4 >>), Tok("al", << "r" >>) >>),
          << 62, 62 >>}
Keys == {"bold", "inline-code", "quote", "rule", "paragraph", "table", "headers", "scrollbar"}
Entries == {[k |-> k, t |-> "s", v |-> x] : k \in Keys, x \in Texts}
   \cup {[k |-> "headers", t |-> "l", v |-> << x >>] : x \in Texts}
   \cup {[k |-> "scrollbar", t |-> "m", v |-> [track |-> x, thumb |-> y]] : x \in Texts, y \in Texts}
   \cup {[k |-> "table-border-chars", t |-> "w", v |-> x] : x \in {"ascii", "unknown"}}
   \cup {[k |-> "list-items-indentation-mode", t |-> "w", v |-> x] : x \in {"first-line-only", "block"}}
   \cup {[k |-> "color", t |-> "s", v |-> <<>>]}

Desc(s) ==
  LET E(k, v) == [k |-> k, t |-> "s", v |-> TextOf(v)] IN
  << E("bold", CompoundToks(s.bold)), E("italic", CompoundToks(s.italic)), E("strikeout", CompoundToks(s.strike)),
     E("inline_code", CompoundToks(s.icode)), E("ellipsis", CompoundToks(s.ell)),
     E("bullet", CharToks(s.bullet)), E("quote", CharToks(s.quote)), E("horizontal_rule", CharToks(s.hr)),
     [k |-> "scrollbar", t |-> "m", v |-> [track |-> TextOf(CharToks(s.track)), thumb |-> TextOf(CharToks(s.thumb))]],
     E("paragraph", LineToks(s.para)), E("code_block", LineToks(s.code)), E("table", LineToks(s.table)),
     [k |-> "headers", t |-> "l", v |-> [j \in 1..Len(s.h) |-> TextOf(LineToks(s.h[j]))]],
     [k |-> "table_border_chars", t |-> "w", v |-> s.tb],
     [k |-> "list_items_indentation_mode", t |-> "w", v |-> IF s.mode = "first" THEN "first-line-only" ELSE "block"] >>

Init == sk \in {Default0, Blank0} /\ n = 0
Next == /\ n < MaxSteps /\ n' = n + 1 /\ "failed" \notin DOMAIN sk
        /\ \/ \E e \in Changes : sk' = Change(sk, e)
           \/ \E e \in Entries : sk' = Entry(sk, e)
RoundTrip == "failed" \notin DOMAIN sk => Described(Default0, Desc(sk)) = [sk EXCEPT !.sp = Default0.sp]
=============================================================================
