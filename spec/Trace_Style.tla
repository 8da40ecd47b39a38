----------------------------- MODULE Trace_Style -----------------------------
(* Validates the parsing and the writing of styles and skins (C20), the     *)
(* algebra of styles (C25) and skin wide changes (C29) against Style.tla    *)
(* and Skin.tla.                                                            *)
EXTENDS Skin, Json, IOUtils, TLC
CONSTANT Prop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, i, st, v
vars == << tr, i, st, v >>

-----------------------------------------------------------------------------
(* values as logged: sets of attributes are arrays *)
NC(x) == [x EXCEPT !.at = ToSet(@)]
NLs(x) == [x EXCEPT !.cs = NC(@)]
NB(x) == [track |-> NLs(x.track), thumb |-> NLs(x.thumb)]
NSkin(x) == [x EXCEPT !.para = NLs(@), !.code = NLs(@), !.table = NLs(@), !.h = [j \in 1..Len(@) |-> NLs(@[j])],
  !.bold = NC(@), !.italic = NC(@), !.strike = NC(@), !.icode = NC(@), !.ell = NC(@),
  !.bullet = NLs(@), !.quote = NLs(@), !.hr = NLs(@), !.track = NLs(@), !.thumb = NLs(@), !.sp = [j \in 1..Len(@) |-> NLs(@[j])]]
NState(x) == [c |-> NLs(x.c), s |-> NC(x.s), l |-> NLs(x.l)]

-----------------------------------------------------------------------------
(* C20 *)
ColorTok(s) == LET c == ColorOf(LowerCase(s)) IN IF c = NotColor THEN Bad ELSE Tok("col", c)
AttTok(s) == LET f == Find(CodedAttrs, LowerCase(s)) IN IF f = <<>> THEN Bad ELSE Tok("att", << f[1][2] >>)
AlTok(s) == LET f == Find(CodedAligns, LowerCase(s)) IN IF f = <<>> THEN Bad ELSE Tok("al", << f[1][2] >>)
Result(e, good, value) ==
  IF e.ok # good THEN (IF good THEN "rejected text" ELSE "accepted text")
  ELSE IF good /\ e.r # value THEN "parsed value" ELSE "ok"
\* a text meaning the value, and read back as the value
Texts(e, mean(_)) ==
  IF \E j \in 1..Len(e.w) : LET t == Tokens(e.w[j]) IN AnyBad(t) \/ mean(t) # e.x THEN "written text"
  ELSE IF \E j \in 1..Len(e.b) : e.b[j] # e.x THEN "value read back"
  ELSE "ok"
N2(e, norm(_)) == [e EXCEPT !.x = norm(@), !.b = [j \in 1..Len(@) |-> norm(@[j])]]
Blank0 == [track |-> [c |-> 0, cs |-> NoStyle], thumb |-> [c |-> 0, cs |-> NoStyle]]
JudgeSyntax(default, e) ==
  CASE e.o = "tok" ->
         IF e.r # Lex(e.s) THEN "token" ELSE IF e.col # ColorTok(e.s) THEN "color token"
         ELSE IF e.att # AttTok(e.s) THEN "attribute token" ELSE IF e.al # AlTok(e.s) THEN "alignment token" ELSE "ok"
    [] e.o = "mk" ->
         IF e.rgb # e.v THEN "rgb color" ELSE IF e.gray # << 232 + Min2(e.l, 23) >> THEN "gray color"
         ELSE IF e.ansi # << e.v[1] >> THEN "ansi color" ELSE "ok"
    [] e.o = "toks" -> LET t == Tokens(e.s) IN Result(e, ~AnyBad(t), t)
    [] e.o = "cs" -> LET t == Tokens(e.s) IN Result(IF e.ok THEN [e EXCEPT !.r = NC(@)] ELSE e, ~AnyBad(t), CompoundOf(t))
    [] e.o = "ls" -> LET t == Tokens(e.s) IN Result(IF e.ok THEN [e EXCEPT !.r = NLs(@)] ELSE e, ~AnyBad(t), LineOf(t))
    [] e.o = "sc" -> LET t == Tokens(e.s) IN Result(IF e.ok THEN [e EXCEPT !.r = NLs(@)] ELSE e, ~AnyBad(t), CharOf(t, e.d))
    [] e.o = "wcs" -> Texts(N2(e, NC), CompoundOf)
    [] e.o = "wls" -> Texts(N2(e, NLs), LineOf)
    [] e.o = "wsc" -> Texts(N2(e, NLs), LAMBDA t : CharOf(t, 63))
    [] e.o = "wtok" -> IF Lex(e.w) # e.x THEN "written token" ELSE IF e.b # e.x THEN "token read back" ELSE "ok"
    [] e.o = "wsb" ->
         LET r == Entry(Blank0, e.e) IN
         IF "failed" \in DOMAIN r \/ r # NB(e.x) THEN "written scrollbar"
         ELSE IF \E j \in 1..2 : NB(e.b[j]) # NB(e.x) THEN "scrollbar read back" ELSE "ok"
    [] e.o = "skin_de" ->
         LET r == Described(default, e.e) IN
         IF e.ok # ("failed" \notin DOMAIN r) THEN "accepted skin" ELSE IF e.ok /\ NSkin(e.r) # r THEN "described skin" ELSE "ok"
    [] e.o = "skin_rt" ->
         LET x == NSkin(e.x) IN
         IF Described(default, e.e) # x THEN "written skin" ELSE IF NSkin(e.b) # x THEN "skin read back" ELSE "ok"

-----------------------------------------------------------------------------
(* C25 *)
\* the state after an operation, when it's determined
Op(s, e) ==
  CASE e.o = "c.set_fg" -> [s EXCEPT !.c = LFg(@, e.c)]
    [] e.o = "c.set_bg" -> [s EXCEPT !.c = LBg(@, e.c)]
    [] e.o = "c.set_char" -> [s EXCEPT !.c.c = e.ch]
    [] e.o = "c.set_style" -> [s EXCEPT !.c.cs = NC(e.x)]
    [] e.o = "c.new" -> [s EXCEPT !.c = [c |-> e.ch, cs |-> NC(e.x)]]
    [] e.o = "s.over" -> [s EXCEPT !.s = Over(@, NC(e.x))]
    [] e.o = "s.set_fg" -> [s EXCEPT !.s = Fg(@, e.c)]
    [] e.o = "s.set_bg" -> [s EXCEPT !.s = Bg(@, e.c)]
    [] e.o = "s.set_fgbg" -> [s EXCEPT !.s = Bg(Fg(@, e.c), e.c2)]
    [] e.o = "s.add_attr" -> [s EXCEPT !.s.at = @ \cup {e.a}]
    [] e.o = "s.remove_attr" -> [s EXCEPT !.s.at = @ \ {e.a}]
    [] e.o = "s.new" -> [s EXCEPT !.s = NC(e.x)]
    [] e.o = "l.set_fg" -> [s EXCEPT !.l = LFg(@, e.c)]
    [] e.o = "l.set_bg" -> [s EXCEPT !.l = LBg(@, e.c)]
    [] e.o = "l.set_fgbg" -> [s EXCEPT !.l = LBg(LFg(@, e.c), e.c2)]
    [] e.o = "l.add_attr" -> [s EXCEPT !.l.cs.at = @ \cup {e.a}]
    [] e.o = "l.from" -> [s EXCEPT !.l = [cs |-> NC(e.x), al |-> "u", ml |-> 0, mr |-> 0]]
Next1(s, e, r) ==
  CASE e.o = "c.blend" -> BlendedStyle(s.c.cs, e.c, e.w, r.c.cs) /\ [s EXCEPT !.c.cs = r.c.cs] = r
    [] e.o = "s.blend" -> BlendedStyle(s.s, e.c, e.w, r.s) /\ [s EXCEPT !.s = r.s] = r
    [] e.o = "l.blend" -> BlendedStyle(s.l.cs, e.c, e.w, r.l.cs) /\ [s EXCEPT !.l.cs = r.l.cs] = r
    [] OTHER -> r = Op(s, e)
\* what's displayed
Seen(c) == IF c = << -1 >> THEN <<>> ELSE c
SeenStyle(cs) == [fg |-> Seen(cs.fg), bg |-> Seen(cs.bg), at |-> cs.at]
Cells(text, cs) == [k \in 1..Len(text) |-> [c |-> text[k], s |-> SeenStyle(cs)]]
NShown(x) == [k \in 1..Len(x) |-> [x[k] EXCEPT !.s = NC(@)]]
Times(text, n) == FlattenSeq([k \in 1..n |-> text])
ShownOk(s, e) ==
  /\ \A j \in 1..2 :
       /\ NShown(e.dc[j]) = Cells(<< s.c.c >>, s.c.cs)
       /\ NShown(e.dr[j]) = Cells(Times(<< s.c.c >>, e.n), s.c.cs)
       /\ NShown(e.ds[j]) = Cells(<< 120, 121 >>, s.s)
  /\ NShown(e.cl) = Cells(<< 32, 32, 32 >>, [fg |-> <<>>, bg |-> s.s.bg, at |-> {}])
  /\ NShown(e.rep[1]) = Cells(Times(<< 45 >>, e.n), s.s)
  /\ NShown(e.rep[2]) = Cells(Times(<< 32 >>, e.n), s.s)
  /\ NShown(e.rep[3]) = Cells(Times(<< 97, 98 >>, e.n), s.l.cs)
  /\ NShown(e.rep[4]) = Cells(Times(<< 32 >>, e.n), s.l.cs)
JudgeAlgebra(s, e) ==
  IF e.o = "skin_blend" THEN (IF BlendedSkin(NSkin(e.x), e.c, e.w, NSkin(e.r)) THEN "ok" ELSE "blended skin")
  ELSE LET r == NState(e.st) IN
    IF ~Next1(s, e, r) THEN "styles after the operation"
    ELSE IF ~ShownOk(r, e) THEN "displayed"
    ELSE IF e.gc # << r.c.c, r.c.c, r.c.cs.fg, r.c.cs.bg >> THEN "getters"
    ELSE IF NLs(e.sc2) # [c |-> 107, cs |-> r.s] THEN "style_char"
    ELSE "ok"

-----------------------------------------------------------------------------
(* C29 *)
JudgeChange(s, e) ==
  IF e.o = "blend" THEN (IF BlendedSkin(s, e.c, e.w, NSkin(e.r)) THEN "ok" ELSE "blended skin")
  ELSE IF e.o = "other" \/ NSkin(e.r) = Change(s, e) THEN "ok" ELSE "skin after the change"

Judge(t, s, e) ==
  IF e.p = 1 THEN "panic"
  ELSE CASE Prop = "C20" -> JudgeSyntax(s, e)
         [] Prop = "C25" -> JudgeAlgebra(s, e)
         [] Prop = "C29" -> JudgeChange(s, e)
After(s, e) ==
  IF e.p = 1 THEN s
  ELSE CASE Prop = "C20" -> s
         [] Prop = "C25" -> IF e.o = "skin_blend" THEN s ELSE NState(e.st)
         [] Prop = "C29" -> NSkin(e.r)
Start(t) ==
  IF "default" \notin DOMAIN t THEN <<>>
  ELSE IF Prop = "C25" THEN NState(t.default) ELSE NSkin(t.default)

Init ==
  /\ tr \in 1..Len(Traces)
  /\ i = 0
  /\ v = "ok"
  /\ st = Start(Traces[tr])
Next ==
  /\ v = "ok"
  /\ i < Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ LET e == Traces[tr].ev[i + 1]
     IN /\ v' = Judge(Traces[tr], st, e)
        /\ st' = After(st, e)
Accepted == v = "ok"
=============================================================================
