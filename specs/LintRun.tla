------------------------------- MODULE LintRun -------------------------------
(***************************************************************************)
(* C19.  A run of cmake-lint over a list of files: an automaton that reads *)
(* each file in turn for the pragmas in it and the blocks they are in, and *)
(* so learns which ids are suppressed on which lines.  What is printed for *)
(* the file must be the messages it has when nothing is suppressed, less   *)
(* the suppressed ones, plus those about the pragmas themselves; the       *)
(* summary and the exit status must agree with what was printed.           *)
(*                                                                         *)
(* Case: files: [p: path, rd: readable, x: text, base: messages without    *)
(* suppressions [id, ln, m], got: the ones printed]; off: ids in           *)
(* disabled_codes; deco: decorations printed; heads: the paths in the      *)
(* headings; scanned; cats: <<C, E, R, W>> counts of the summary; rc: exit *)
(* status; stray: output that is not where it should be.                   *)
(***************************************************************************)
EXTENDS CMakeLang, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, f, i, ln, ls, stk, depth, cm, iv, extra, dc, st
vars == <<c, f, i, ln, ls, stk, depth, cm, iv, extra, dc, st>>
\* f: file; i: reader position on line ln that starts at ls; stk: the open
\* blocks with the suppressions in force; depth: open parentheses;
\* cm: the comment before i; iv: suppressed <<id, first line, last line>>;
\* extra: messages about pragmas; dc: lines about which nothing is said
K == Cases[c]
F == K.files[f]
X == K.files[f].x
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Stop(clause, pos) == Verdict(clause, pos) /\ st' = "done" /\ UNCHANGED <<c, f, i, ln, ls, stk, depth, cm, iv, extra, dc>>
Forever == 1000000

Ids == {"C0102", "C0103", "C0111", "C0112", "C0113", "C0114", "C0201", "C0202", "C0301", "C0303", "C0304", "C0305", "C0306", "C0307",
        "C0321", "C0327", "E0011", "E0012", "E0103", "E0108", "E0109", "E1120", "E1121", "E1122", "E1125", "E1126", "R0911", "R0912",
        "R0913", "R0914", "R0915", "W0101", "W0104", "W0105", "W0106"}
TxtLint == Cp("# cmake-lint: ")
Letter == [C |-> 67, E |-> 69, R |-> 82, W |-> 87]
\* the text of an id (all are a letter and four digits)
IdText(id) == SubSeq([k \in 1..5 |-> IF k = 1 THEN Letter[SubSeq(id, 1, 1)] ELSE 48 + CHOOSE d \in 0..9 : ToString(d) = SubSeq(id, k, k)], 1, 5)
Known == [id \in Ids |-> IdText(id)]

NoComment == [k |-> "none", e |-> 0, ln |-> 0, col |-> 0, run |-> 0, trail |-> FALSE]
Base == [b |-> "file", on |-> {}]
FileStart == /\ i' = 1 /\ ln' = 1 /\ ls' = 1 /\ stk' = <<Base>> /\ depth' = 0 /\ cm' = NoComment /\ iv' = {} /\ extra' = <<>> /\ dc' = {}
Init == /\ c \in 1..Len(Cases)
        /\ f = 1 /\ i = 1 /\ ln = 1 /\ ls = 1 /\ stk = <<Base>> /\ depth = 0 /\ cm = NoComment
        /\ iv = {} /\ extra = <<>> /\ dc = {} /\ st = "file"

RECURSIVE Loc(_, _, _, _)
Loc(p, q, n, s) == LET a == FindIn(X, q, {LF}) IN IF a >= p THEN <<n, s>> ELSE Loc(p, a + 1, n + 1, a + 1)
At(p) == Loc(p, i, ln, ls)

(* -------------------------------- pragmas -------------------------------- *)
RECURSIVE Split(_, _, _)
Split(t, p, ch) == LET q == FindIn(t, p, {ch}) IN
                   IF q > Len(t) THEN <<SubSeq(t, p, Len(t))>> ELSE <<SubSeq(t, p, q - 1)>> \o Split(t, q + 1, ch)
IdOf(t) == {id \in Ids : Known[id] = t}
\* result: [ids: what is suppressed, m: messages]
RECURSIVE Values(_, _, _)
Values(vs, k, l) ==
  IF k > Len(vs) THEN [ids |-> {}, m |-> <<>>]
  ELSE LET r == Values(vs, k + 1, l) IN
       IF IdOf(vs[k]) # {} THEN [r EXCEPT !.ids = @ \cup IdOf(vs[k])]
       ELSE [r EXCEPT !.m = <<[id |-> "E0012", ln |-> l, m |-> Cp("Bad option value ") \o vs[k]]>> \o @]
RECURSIVE Items(_, _, _)
Items(ws, k, l) ==
  IF k > Len(ws) THEN [ids |-> {}, m |-> <<>>]
  ELSE LET r == Items(ws, k + 1, l) eq == FindIn(ws[k], 1, {EQUALS}) key == SubSeq(ws[k], 1, eq - 1)
           v == Values(Split(ws[k], eq + 1, 44), 1, l)
       IN IF eq <= Len(ws[k]) /\ key = Cp("disable") THEN [ids |-> v.ids \cup r.ids, m |-> v.m \o r.m]
          ELSE [r EXCEPT !.m = <<[id |-> "E0011", ln |-> l, m |-> Cp("Unrecognized file option ") \o key]>> \o @]
Pragma(ev, l) == LET t == TextOf(X, ev) IN
  IF ev.k = "lc" /\ StartsWith(t, TxtLint) THEN Items(Words(t, Len(TxtLint) + 1), 1, l) ELSE [ids |-> {}, m |-> <<>>]

Top == stk[Len(stk)]
CommentStep(ev) ==
  LET l == At(ev.s)[1] col == ev.s - At(ev.s)[2] t == TextOf(X, ev) le == At(ev.e)
      next == cm.k = "lc" /\ ev.k = "lc" /\ l = cm.ln + 1
      same == cm.k \in {"stmt"} /\ cm.ln = l
      trail == same \/ (cm.trail /\ next /\ col = cm.col)
      inside == depth > 0 \/ trail
      run == IF next THEN cm.run ELSE l
      p == Pragma(ev, l)
      special == (ev.k = "lc" /\ Len(t) > 1 /\ t[2] = 60) \/ \E k \in 2..Len(t) : HasAt(t, k, TxtFormat) \/ HasAt(t, k, TxtCmf)
  IN IF special THEN Stop("skip-comment-not-modelled", ev.s)
     ELSE /\ i' = ev.e /\ ln' = le[1] /\ ls' = le[2]
          /\ cm' = [k |-> ev.k, e |-> ev.e, ln |-> l, col |-> col, run |-> run, trail |-> trail]
          /\ extra' = extra \o p.m
          /\ iv' = IF inside THEN iv \cup {<<id, l, l>> : id \in p.ids} ELSE iv
          /\ stk' = IF inside THEN stk ELSE [stk EXCEPT ![Len(stk)].on = @ \cup {<<id, l>> : id \in p.ids}]
          \* which line of a block of comments counts is not said
          /\ dc' = IF p.ids = {} \/ run = l THEN dc ELSE dc \cup (IF inside THEN run..l ELSE run..l - 1)
          /\ UNCHANGED <<c, f, depth, st>>

Openers == {"if", "foreach", "while", "function", "macro"}
NameText == [if |-> Cp("if"), foreach |-> Cp("foreach"), while |-> Cp("while"), function |-> Cp("function"), macro |-> Cp("macro")]
EndText == [if |-> Cp("endif"), foreach |-> Cp("endforeach"), while |-> Cp("endwhile"),
            function |-> Cp("endfunction"), macro |-> Cp("endmacro"), file |-> <<0>>]
Over(fr, last) == {<<s[1], s[2], last>> : s \in fr.on}
\* the line on which p is begins with blanks before p
RECURSIVE FirstOnLine(_)
FirstOnLine(p) == p < 1 \/ X[p] = LF \/ (X[p] \in Blank /\ FirstOnLine(p - 1))

NameStep(ev) ==
  LET name == ToLower(TextOf(X, ev)) l == At(ev.s)
      op == NextEvent(X, ev.e)
      part == Top.b = "if" /\ name \in {Cp("else"), Cp("elseif")}
      closes == name = EndText[Top.b]
      opens == {b \in Openers : NameText[b] = name}
      le == At(op.e)
  IN IF op.k # "(" THEN Stop("skip-not-cmake", ev.s)
     ELSE /\ i' = op.e /\ ln' = le[1] /\ ls' = le[2] /\ depth' = 1 /\ cm' = NoComment
          /\ iv' = IF part \/ closes THEN iv \cup Over(Top, l[1] - 1) ELSE iv
          /\ dc' = IF (part \/ closes) /\ ~FirstOnLine(ev.s - 1) /\ Top.on # {} THEN dc \cup {l[1]} ELSE dc
          /\ stk' = IF part THEN [stk EXCEPT ![Len(stk)].on = {}]
                    ELSE IF closes THEN SubSeq(stk, 1, Len(stk) - 1)
                    ELSE IF opens # {} THEN Append(stk, [b |-> CHOOSE b \in opens : TRUE, on |-> {}]) ELSE stk
          /\ UNCHANGED <<c, f, extra, st>>

Suppressed(m, ivs) == m.id \in {K.off[k] : k \in 1..Len(K.off)} \/ \E s \in ivs : s[1] = m.id /\ s[2] <= m.ln /\ m.ln <= s[3]
Copies(m, q) == Cardinality({k \in 1..Len(q) : q[k] = m})
FileEnd ==
  LET ivs == iv \cup UNION {Over(stk[k], Forever) : k \in 1..Len(stk)}
      all == F.base \o extra
      Said(m) == m.ln \notin dc
      want == SelectSeq(all, LAMBDA m : Said(m) /\ ~Suppressed(m, ivs))
      got == SelectSeq(F.got, Said)
      missing == {k \in 1..Len(want) : Copies(want[k], got) < Copies(want[k], want)}
      surplus == {k \in 1..Len(got) : Copies(got[k], want) < Copies(got[k], got)}
      stays == {k \in surplus : \E j \in 1..Len(all) : all[j] = got[k]}
  IN IF Len(stk) > 1 THEN Stop("skip-not-closed", i)
     ELSE IF missing # {} THEN LET k == CHOOSE k \in missing : TRUE IN Stop("hidden-" \o want[k].id, want[k].ln)
     ELSE IF stays # {} THEN LET k == CHOOSE k \in stays : TRUE IN Stop("not-suppressed-" \o got[k].id, got[k].ln)
     ELSE IF surplus # {} THEN LET k == CHOOSE k \in surplus : TRUE IN Stop("surplus-" \o got[k].id, got[k].ln)
     ELSE f' = f + 1 /\ st' = "file" /\ FileStart /\ UNCHANGED c

(* ------------------------------- the run --------------------------------- *)
Readable == SelectSeq(K.files, LAMBDA x : x.rd = 1)
RECURSIVE Sum(_, _)
Sum(q, k) == IF k > Len(q) THEN 0 ELSE q[k] + Sum(q, k + 1)
OfCat(ch) == Sum([k \in 1..Len(Readable) |-> Cardinality({j \in 1..Len(Readable[k].got) : SubSeq(Readable[k].got[j].id, 1, 1) = ch})], 1)
Printed == OfCat("C") + OfCat("E") + OfCat("R") + OfCat("W")
RunEnd ==
  LET paths == SubSeq([k \in 1..Len(Readable) |-> Readable[k].p], 1, Len(Readable)) IN
  IF K.stray = 1 THEN Stop("stray-output", 0)
  ELSE IF K.rc # (IF Printed > 0 \/ Len(Readable) < Len(K.files) THEN 1 ELSE 0) THEN Stop("exit-status", K.rc)
  ELSE IF K.deco = 0 THEN Stop("ok", 0)
  ELSE IF K.heads # paths THEN Stop("headings", Len(K.heads))
  ELSE IF K.scanned # Len(paths) THEN Stop("files-scanned", K.scanned)
  ELSE IF K.cats # <<OfCat("C"), OfCat("E"), OfCat("R"), OfCat("W")>> THEN Stop("summary", 0)
  ELSE Stop("ok", 0)
FileStep ==
  /\ st = "file"
  /\ IF f > Len(K.files) THEN RunEnd
     ELSE IF F.rd = 0 THEN IF Len(F.got) > 0 THEN Stop("messages-for-unreadable", f) ELSE f' = f + 1 /\ FileStart /\ UNCHANGED <<c, st>>
     ELSE IF Chr(X, 1) = BOM THEN Stop("skip-not-modelled", 1)
     ELSE st' = "read" /\ UNCHANGED <<c, f, i, ln, ls, stk, depth, cm, iv, extra, dc>>
Read ==
  /\ st = "read"
  /\ LET ev == NextEvent(X, i) le == At(ev.e) l == At(ev.s)
         Go(d) == /\ i' = ev.e /\ ln' = le[1] /\ ls' = le[2] /\ depth' = d
                  /\ cm' = IF d = 0 THEN [NoComment EXCEPT !.k = "stmt", !.ln = le[1]] ELSE NoComment
                  /\ UNCHANGED <<c, f, stk, iv, extra, dc, st>>
     IN CASE ev.k = "bad" -> Stop("skip-not-cmake", ev.s)
          [] ev.k = "eof" -> IF depth > 0 THEN Stop("skip-not-cmake", ev.s) ELSE FileEnd
          [] IsComment(ev) -> CommentStep(ev)
          [] ev.k = "(" -> IF depth = 0 THEN Stop("skip-not-cmake", ev.s) ELSE Go(depth + 1)
          [] ev.k = ")" -> IF depth = 0 THEN Stop("skip-not-cmake", ev.s) ELSE Go(depth - 1)
          [] ev.k = "u" /\ depth = 0 -> NameStep(ev)
          [] OTHER -> IF depth = 0 THEN Stop("skip-not-cmake", ev.s) ELSE Go(depth)
Next == FileStep \/ Read
=============================================================================
