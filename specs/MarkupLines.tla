----------------------------- MODULE MarkupLines -----------------------------
(***************************************************************************)
(* The lines of a comment: which items its lines make up (the line rules   *)
(* of the documented markup) and how they are laid out in the columns that *)
(* remain.  Foundation of Markup (C12) and Layout (C09, C10).              *)
(*                                                                         *)
(* Options of a case (field o): lw line width, bc bullet, ec punctuation   *)
(* of enumerations, first first comment is literal, lk/lt literal pattern  *)
(* (0 none, 1 starts with, 2 first line contains), fch fence characters,   *)
(* tf 1 if "~~~" is a fence, rcs/rn ruler characters (<<>> for the         *)
(* default) and number, et explicit trailing pattern, hm hash ruler        *)
(* length, canon, on markup enabled.                                       *)
(***************************************************************************)
EXTENDS CMakeLang, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE c
O == Cases[c].o

STAR == 42  DASH == 45  DOT == 46  COLON == 58  UNDER == 95  TILDE == 126  BANG == 33
SetOf(s) == {s[k] : k \in 1..Len(s)}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Rep(ch, k) == SubSeq([j \in 1..k |-> ch], 1, k)

\* ------------------------------------------------------------ comment lines
\* column (from 0) of position s of text t; a byte order mark takes no column
RECURSIVE LineStart(_, _)
LineStart(t, s) == IF s = 1 THEN 1 ELSE IF t[s - 1] = LF THEN s ELSE LineStart(t, s - 1)
Column(t, s) == LET a == LineStart(t, s) IN s - a - (IF a = 1 /\ t[1] = BOM THEN 1 ELSE 0)
Breaks(t, a, b) == LET F[k \in (a - 1)..(b - 1)] == IF k = a - 1 THEN 0 ELSE F[k - 1] + (IF t[k] = LF THEN 1 ELSE 0) IN F[b - 1]

\* the text of a line that the markup sees
Inline(r, expl) ==
  IF expl THEN SubSeq(r, Len(O.et) + 1, Len(r))
  ELSE IF O.on = 0 \/ (Len(r) >= O.hm /\ \A k \in 1..O.hm : r[k] = HASH) THEN SubSeq(r, 2, Len(r))
  ELSE LStrip(r, {HASH})

\* ------------------------------------------------------------ kinds of line
\* a character that is neither of a word nor blank
NonWord(ch) == ch < 128 /\ ch \notin IdChar \cup Space
FenceAt(l) == LET a == Skip(l, 1, Space) b == Skip(l, a, SetOf(O.fch)) IN IF b - a >= 3 THEN [a |-> a, b |-> b] ELSE [a |-> 0, b |-> 0]
RulerCh(ch) == IF O.rcs = <<>> THEN NonWord(ch) ELSE ch \in SetOf(O.rcs)
IsRuler(l) == LET a == Skip(l, 1, Space) m == O.rn IN
              Len(l) - m >= a + m - 1 /\ (\A k \in a..(a + m - 1) : RulerCh(l[k])) /\ \A k \in (Len(l) - m + 1)..Len(l) : RulerCh(l[k])
\* [ok, ind indentation, dg end of the number, ch bullet or punctuation, tx text]
BulletOf(l) == LET a == Skip(l, 1, Space) IN
               [ok |-> Chr(l, a) \in {STAR, DASH} \cup SetOf(O.bc) /\ Chr(l, a + 1) = SP /\ Len(l) >= a + 2, ind |-> a - 1, dg |-> a, ch |-> Chr(l, a), tx |-> SubSeq(l, a + 1, Len(l))]
EnumOf(l) == LET a == Skip(l, 1, Space) b == Skip(l, a, Digit) IN
             [ok |-> b > a /\ Chr(l, b) \in {DOT, COLON} \cup SetOf(O.ec) /\ Chr(l, b + 1) = SP /\ Len(l) >= b + 2, ind |-> a - 1, dg |-> b - 1, ch |-> Chr(l, b), tx |-> SubSeq(l, b + 1, Len(l))]
IsNote(l) == LET a == Skip(l, 1, Space) b == Skip(l, a, Upper \cup {UNDER}) e == FindIn(l, b + 1, {RPAR}) IN
             b > a /\ Chr(l, b) = LPAR /\ e > b + 1 /\ e <= Len(l) /\ Chr(l, e + 1) = COLON

\* ------------------------------------------------------------ line machine
\* items: [k kind, ind, ls lines]; s state; ref the line of the last list entry
Item(k, ind, ls) == [k |-> k, ind |-> ind, ls |-> ls]
Add(m, it, s) == [items |-> Append(m.items, it), s |-> s, ref |-> m.ref]
More(m, l) == [m EXCEPT !.items = [@ EXCEPT ![Len(@)].ls = Append(@, l)]]
Glue(m, l) == [m EXCEPT !.items = [@ EXCEPT ![Len(@)].ls = [@ EXCEPT ![Len(@)] = @ \o <<LF>> \o l]]]
Trim(l) == Strip(l, Space)

Plain(m, l) ==   \* neither fence nor verbatim
  IF l = <<>> THEN IF m.s = "sep" THEN m ELSE Add(m, Item("sep", 0, <<>>), "sep")
  ELSE IF IsRuler(l) THEN Add(m, Item("ruler", 0, <<Trim(l)>>), "ruler")
  ELSE IF m.s \in {"none", "sep", "ruler"} THEN
    LET b == BulletOf(l) e == EnumOf(l) IN
    IF b.ok THEN [Add(m, Item("bullets", b.ind, <<Trim(b.tx)>>), "bullets") EXCEPT !.ref = b]
    ELSE IF e.ok THEN [Add(m, Item("enum", e.ind, <<Trim(e.tx)>>), "enum") EXCEPT !.ref = e]
    ELSE IF IsNote(l) THEN Add(m, Item("note", 0, <<Trim(l)>>), "note")
    ELSE Add(m, Item("para", 0, <<Trim(l)>>), "para")
  ELSE IF m.s \in {"para", "note"} THEN
    IF IsNote(l) THEN Add(m, Item("note", 0, <<Trim(l)>>), "note") ELSE More(m, Trim(l))
  ELSE IF m.s = "bullets" THEN
    LET b == BulletOf(l) IN
    IF b.ok /\ b.ind = m.ref.ind /\ b.ch = m.ref.ch THEN More(m, Trim(b.tx)) ELSE Glue(m, Trim(l))
  ELSE \* an enumeration goes on where the first digit or the punctuation is in the same column
    LET e == EnumOf(l) IN
    IF e.ok /\ e.ch = m.ref.ch /\ (e.ind = m.ref.ind \/ e.dg = m.ref.dg)
    THEN LET w == More(m, Trim(e.tx)) IN [w EXCEPT !.ref = e, !.items = [@ EXCEPT ![Len(@)].ind = Min(@, e.ind)]]
    ELSE Glue(m, Trim(l))

OneLine(m, l) ==
  LET f == FenceAt(l) IN
  IF f.a > 0 THEN
    LET g == Item("fence", 0, <<SubSeq(l, f.a, f.b - 1)>>)
        rest == Trim(SubSeq(l, f.b, Len(l)))
        w == IF m.s = "verb" THEN Add(m, g, "none") ELSE Add(Add(m, g, "none"), Item("verb", 0, <<>>), "verb")
    IN IF rest = <<>> THEN w ELSE IF w.s = "verb" THEN More(w, rest) ELSE Plain(w, rest)
  ELSE IF m.s = "verb" THEN More(m, IF Chr(l, 1) = SP THEN SubSeq(l, 2, Len(l)) ELSE l)
  ELSE Plain(m, l)
RECURSIVE Fold(_, _, _)
Fold(m, ls, k) == IF k > Len(ls) THEN m ELSE Fold(OneLine(m, ls[k]), ls, k + 1)
ItemsOf(ls) == Fold([items |-> <<>>, s |-> "none", ref |-> BulletOf(<<>>)], ls, 1).items

\* ----------------------------------------------------------------- filling
Flat(t) == SubSeq([k \in 1..Len(t) |-> IF t[k] \in Space THEN SP ELSE t[k]], 1, Len(t))
\* the end of the line that starts at a and reaches to b so far
RECURSIVE Fit(_, _, _, _)
Fit(t, a, b, w) == LET s == Skip(t, b, {SP}) e == FindIn(t, s, {SP}) IN
                   IF s > Len(t) \/ e - a > w THEN b ELSE Fit(t, a, e, w)
RECURSIVE Wrap(_, _, _)
Wrap(t, a, w) == IF a > Len(t) THEN <<>>
                 ELSE LET b == Fit(t, a, FindIn(t, a, {SP}), w) IN <<SubSeq(t, a, b - 1)>> \o Wrap(t, Skip(t, b, {SP}), w)
RECURSIVE JoinWith(_, _, _)
JoinWith(ls, k, sep) == IF k > Len(ls) THEN <<>> ELSE (IF k > 1 THEN sep ELSE <<>>) \o ls[k] \o JoinWith(ls, k + 1, sep)
\* until nothing moves any more
RECURSIVE Fill(_, _)
Fill(t, w) == LET f == Flat(t) ls == Wrap(f, Skip(f, 1, {SP}), w) IN
              IF Wrap(JoinWith(ls, 1, <<SP>>), 1, w) = ls THEN ls ELSE Fill(JoinWith(ls, 1, <<SP>>), w)

Digits10 == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
RECURSIVE Dec(_)
Dec(k) == IF k < 10 THEN <<Digits10[k + 1]>> ELSE Dec(k \div 10) \o <<Digits10[(k % 10) + 1]>>
PadL(t, w) == Rep(SP, Max(0, w - Len(t))) \o t
Indented(ls, ind) == SubSeq([k \in 1..Len(ls) |-> ind \o ls[k]], 1, Len(ls))
\* an entry with its label; further lines are indented
Entry(label, ind, ls) == <<label \o ls[1]>> \o Indented(SubSeq(ls, 2, Len(ls)), ind)
RECURSIVE Bullets(_, _, _)
Bullets(ls, k, w) == IF k > Len(ls) THEN <<>> ELSE Entry(O.bc \o <<SP>>, <<SP, SP>>, Fill(ls[k], w - 2)) \o Bullets(ls, k + 1, w)
RECURSIVE Enums(_, _, _)
Enums(ls, k, w) == IF k > Len(ls) THEN <<>>
                   ELSE LET dg == Len(Dec(Len(ls))) IN
                        Entry(PadL(Dec(k), dg) \o O.ec \o <<SP>>, Rep(SP, dg + 2), Fill(ls[k], w - 2)) \o Enums(ls, k + 1, w)

RTrim(ls) == SubSeq([k \in 1..Len(ls) |-> RStrip(ls[k], Space)], 1, Len(ls))
HashRuler(it) == it.k = "ruler" /\ \A k \in 1..Len(it.ls[1]) : it.ls[1][k] = HASH
Shown(it, w) ==
  CASE it.k = "sep" -> <<<<>>>>
    [] it.k = "fence" -> IF O.tf = 1 THEN <<<<TILDE, TILDE, TILDE>>>> ELSE it.ls
    [] it.k = "verb" -> RTrim(it.ls)
    [] it.k \in {"para", "note", "ruler"} -> IF HashRuler(it) /\ O.canon = 1 THEN <<Rep(HASH, w)>> ELSE Fill(JoinWith(it.ls, 1, <<SP>>), w)
    [] it.k = "bullets" -> Bullets(it.ls, 1, w)
    [] it.k = "enum" -> Enums(it.ls, 1, w)
\* nested lists are indented by two blanks per level
RECURSIVE Popped(_, _)
Popped(h, ind) == IF h # <<>> /\ h[Len(h)] >= ind THEN Popped(SubSeq(h, 1, Len(h) - 1), ind) ELSE h
RECURSIVE AllItems(_, _, _, _)
AllItems(its, k, w, hist) ==
  IF k > Len(its) THEN <<>>
  ELSE IF its[k].k \in {"bullets", "enum"} THEN
    LET h == Append(Popped(hist, its[k].ind), its[k].ind) m == 2 * (Len(h) - 1) IN
    Indented(Shown(its[k], Max(3, w - m)), Rep(SP, m)) \o AllItems(its, k + 1, w, h)
  ELSE Shown(its[k], w) \o AllItems(its, k + 1, w, IF its[k].k = "sep" THEN hist ELSE <<>>)

\* the comment is kept as it is
Contains(t, s) == \E k \in 1..(Len(t) - Len(s) + 1) : HasAt(t, k, s)
Literal(com) ==
  \/ O.on = 0
  \/ com.first /\ (O.first = 1 \/ Chr(com.ls[1], 2) = BANG)
  \/ O.lk = 1 /\ StartsWith(Inline(com.ls[1], com.expl), O.lt)
  \/ O.lk = 2 /\ Contains(Inline(com.ls[1], com.expl), O.lt)
\* the lines of the comment when it starts in column col
Lines_(com, col) ==
  IF Literal(com) THEN com.ls
  ELSE LET pre == IF com.expl THEN O.et ELSE <<HASH>>
           ls == SubSeq([k \in 1..Len(com.ls) |-> Inline(com.ls[k], com.expl)], 1, Len(com.ls))
           w == Max(10, O.lw - col - Len(pre) - 1)
           out == AllItems(ItemsOf(ls), 1, w, <<>>)
       IN SubSeq([k \in 1..Len(out) |-> IF out[k] = <<>> THEN pre ELSE pre \o <<SP>> \o out[k]], 1, Len(out))
=============================================================================
