-------------------------------- MODULE Skin --------------------------------
(* Skins: their description as a map of texts, and the changes which apply  *)
(* to several of their styles.                                              *)
(*                                                                          *)
(* A skin is [para, code, table (line styles), h (sequence of line styles), *)
(* bold, italic, strike, icode, ell (compound styles), bullet, quote, hr    *)
(* (styled chars), track, thumb, tb (name of border chars), mode, sp        *)
(* (styled chars shown in place of special compounds)].                     *)
EXTENDS Style

Star == 42
CompoundKeys == << << "bold", "bold" >>, << "italic", "italic" >>, << "strikeout", "strike" >>,
  << "inline_code", "icode" >>, << "inline-code", "icode" >>, << "ellipsis", "ell" >> >>
CharKeys == << << "bullet", "bullet" >>, << "quote_mark", "quote" >>, << "quote", "quote" >>, << "quote-mark", "quote" >>,
  << "horizontal_rule", "hr" >>, << "horizontal-rule", "hr" >>, << "rule", "hr" >> >>
LineKeys == << << "paragraph", "para" >>, << "code_block", "code" >>, << "code-block", "code" >>, << "table", "table" >> >>
BorderKeys == {"table_border_chars", "table-border-chars"}
ModeKeys == {"list_items_indentation_mode", "list-items-indentation-mode"}
Borders == {"standard", "ascii", "rounded"}
In(table, k) == \E j \in 1..Len(table) : table[j][1] = k
Target(table, k) == SelectSeq(table, LAMBDA x : x[1] = k)[1][2]

\* the style of headers is added to the one they have
AddToHeader(h, ls) == [h EXCEPT !.cs = Over(h.cs, ls.cs), !.al = IF ls.al = "u" THEN h.al ELSE ls.al]
Failed == [failed |-> TRUE]

\* an entry of the map: [k, t, v] with t the type of the value: "s" a text (code
\* points), "w" a word (a string, for the keys not made of tokens), "l" a list of
\* texts, "m" a map with the texts of a track and a thumb
Entry(sk, e) ==
  IF "failed" \in DOMAIN sk THEN sk
  ELSE
  CASE In(CompoundKeys, e.k) ->
         LET t == Tokens(e.v) IN IF AnyBad(t) THEN Failed ELSE [sk EXCEPT ![Target(CompoundKeys, e.k)] = CompoundOf(t)]
    [] In(CharKeys, e.k) ->
         LET t == Tokens(e.v) IN IF AnyBad(t) THEN Failed ELSE [sk EXCEPT ![Target(CharKeys, e.k)] = CharOf(t, Star)]
    [] In(LineKeys, e.k) ->
         LET t == Tokens(e.v) IN IF AnyBad(t) THEN Failed ELSE [sk EXCEPT ![Target(LineKeys, e.k)] = LineOf(t)]
    [] e.k = "scrollbar" /\ e.t = "s" ->
         LET t == Tokens(e.v) c == CharOf(t, Star)
         IN  IF AnyBad(t) THEN Failed
             ELSE [sk EXCEPT !.thumb = [c |-> c.c, cs |-> [NoStyle EXCEPT !.fg = IF c.cs.fg = <<>> THEN << 253 >> ELSE c.cs.fg]],
                             !.track = [c |-> c.c, cs |-> [NoStyle EXCEPT !.fg = IF c.cs.bg = <<>> THEN << 237 >> ELSE c.cs.bg]]]
    [] e.k = "scrollbar" /\ e.t = "m" ->
         LET t1 == Tokens(e.v.track) t2 == Tokens(e.v.thumb)
         IN  IF AnyBad(t1) \/ AnyBad(t2) THEN Failed ELSE [sk EXCEPT !.track = CharOf(t1, Star), !.thumb = CharOf(t2, Star)]
    [] e.k = "headers" /\ e.t = "s" ->
         LET t == Tokens(e.v) IN
         IF AnyBad(t) THEN Failed ELSE [sk EXCEPT !.h = [j \in 1..Len(@) |-> AddToHeader(@[j], LineOf(t))]]
    [] e.k = "headers" /\ e.t = "l" ->
         LET ts == [j \in 1..Len(e.v) |-> Tokens(e.v[j])] IN
         IF \E j \in 1..Len(ts) : AnyBad(ts[j]) THEN Failed
         ELSE [sk EXCEPT !.h = [j \in 1..Len(@) |-> IF j <= Len(ts) THEN LineOf(ts[j]) ELSE @[j]]]
    [] e.k \in BorderKeys -> IF e.v \in Borders THEN [sk EXCEPT !.tb = e.v] ELSE sk
    [] e.k \in ModeKeys -> [sk EXCEPT !.mode = IF e.v = "first-line-only" THEN "first" ELSE "block"]
    [] OTHER -> sk
Described(default, entries) == FoldLeft(Entry, default, entries)

-----------------------------------------------------------------------------
(* changes applying to many styles *)
Fg(cs, c) == [cs EXCEPT !.fg = c]
Bg(cs, c) == [cs EXCEPT !.bg = c]
LFg(ls, c) == [ls EXCEPT !.cs = Fg(@, c)]
LBg(ls, c) == [ls EXCEPT !.cs = Bg(@, c)]
HFg(h, c) == [j \in 1..Len(h) |-> LFg(h[j], c)]
HBg(h, c) == [j \in 1..Len(h) |-> LBg(h[j], c)]
Change(sk, e) ==
  CASE e.o = "set_headers_fg" -> [sk EXCEPT !.h = HFg(@, e.c)]
    [] e.o = "set_headers_bg" -> [sk EXCEPT !.h = HBg(@, e.c)]
    [] e.o = "set_global_bg" -> [sk EXCEPT !.h = HBg(@, e.c), !.para = LBg(@, e.c), !.hr = LBg(@, e.c)]
    [] e.o = "set_fg" -> [sk EXCEPT !.para = LFg(@, e.c), !.bold = Fg(@, e.c), !.italic = Fg(@, e.c), !.strike = Fg(@, e.c),
           !.h = HFg(@, e.c), !.bullet = LFg(@, e.c), !.quote = LFg(@, e.c), !.hr = LFg(@, e.c), !.ell = Fg(@, e.c),
           !.sp = HFg(@, e.c)]
    [] e.o = "set_bg" -> [sk EXCEPT !.para = LBg(@, e.c), !.bold = Bg(@, e.c), !.italic = Bg(@, e.c), !.strike = Bg(@, e.c),
           !.h = HBg(@, e.c), !.table = LBg(@, e.c), !.bullet = LBg(@, e.c), !.quote = LBg(@, e.c), !.hr = LBg(@, e.c),
           !.ell = Bg(@, e.c), !.track = LBg(@, e.c), !.thumb = LBg(@, e.c), !.sp = HBg(@, e.c)]
    [] e.o = "limit_to_ascii" -> [sk EXCEPT !.tb = "ascii", !.bullet.c = 42, !.quote.c = 62, !.hr.c = 45]
    [] e.o = "no_style" -> [sk EXCEPT !.para = [cs |-> NoStyle, al |-> "u", ml |-> 0, mr |-> 0],
           !.code = [cs |-> NoStyle, al |-> "u", ml |-> 0, mr |-> 0], !.table = [cs |-> NoStyle, al |-> "u", ml |-> 0, mr |-> 0],
           !.h = [j \in 1..Len(@) |-> [cs |-> NoStyle, al |-> "u", ml |-> 0, mr |-> 0]],
           !.bold = NoStyle, !.italic = NoStyle, !.strike = NoStyle, !.icode = NoStyle, !.ell = NoStyle,
           !.bullet = [c |-> 8226, cs |-> NoStyle], !.quote = [c |-> 9616, cs |-> NoStyle], !.hr = [c |-> 8213, cs |-> NoStyle],
           !.track = [c |-> 9616, cs |-> Fg(NoStyle, << 237 >>)], !.thumb = [c |-> 9616, cs |-> Fg(NoStyle, << 253 >>)],
           !.tb = "standard", !.mode = "block", !.sp = <<>>]
\* every style blended but the scrollbar's
BlendedSkin(x, dest, w, r) ==
  /\ \A f \in {"bold", "italic", "strike", "icode", "ell"} : BlendedStyle(x[f], dest, w, r[f])
  /\ \A f \in {"para", "code", "table", "bullet", "quote", "hr"} :
        /\ BlendedStyle(x[f].cs, dest, w, r[f].cs)
        /\ [x[f] EXCEPT !.cs = r[f].cs] = r[f]
  /\ Len(r.h) = Len(x.h)
  /\ \A j \in 1..Len(x.h) : BlendedStyle(x.h[j].cs, dest, w, r.h[j].cs) /\ [x.h[j] EXCEPT !.cs = r.h[j].cs] = r.h[j]
  /\ r.track = x.track /\ r.thumb = x.thumb /\ r.tb = x.tb /\ r.mode = x.mode
=============================================================================
