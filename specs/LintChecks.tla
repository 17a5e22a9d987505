------------------------------ MODULE LintChecks ------------------------------
(***************************************************************************)
(* C20, C21, C22, C27.  The messages that a listfile deserves: an automaton *)
(* that reads the lines of the text, then its statements with the stack of *)
(* open blocks, and collects the messages about text layout (C03xx), about *)
(* names and documentation (C01xx, C0202, E010x), about complexity and     *)
(* flow (R09xx, W0101, E0103), and about indentation (C0307), spelling of  *)
(* and references to built-in variables (W0105, W0106) and loops that      *)
(* parse arguments (C0201).  What the linter reported must be exactly that,*)
(* as a bag.  (builtin_vars.json: the variables of the CMake manual.)      *)
(*                                                                         *)
(* Case: x: the text; ids: the ids to be compared; msgs: what was reported *)
(* [id, ln, col (-1: none), m: text]; cfg: the limits and patterns.        *)
(* A pattern is [text, alts]: alternatives, each a sequence of             *)
(* [r: ranges of characters, mn, mx] items (mx 0: no limit; mn -1: end of  *)
(* the name), which must match a prefix of the name.                       *)
(***************************************************************************)
EXTENDS CMakeLang, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, ln, ls, stk, prev, doc, tr, exp, dc, cnt, st
vars == <<c, i, ln, ls, stk, prev, doc, tr, exp, dc, cnt, st>>
\* i: reader position, on line ln which starts at ls; stk: open blocks;
\* prev: the element of the body before i; doc: the comment block before i;
\* tr: the comment block that trails a statement; exp: messages so far;
\* dc: <<id, line>> about which the specification says nothing;
\* cnt: statements, branches and returns so far
K == Cases[c]
X == Cases[c].x
G == Cases[c].cfg
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Stop(clause, pos) == Verdict(clause, pos) /\ st' = "done" /\ UNCHANGED <<c, i, ln, ls, stk, prev, doc, tr, exp, dc, cnt>>

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Msg(id, l, col, text) == [id |-> id, ln |-> l, col |-> col, m |-> text]
Ratio(text, n, max) == text \o Cp(" ") \o Dec(n) \o Cp("/") \o Dec(max)

(* ------------------------------ text layout ------------------------------ *)
PySpace == (9..13) \cup (28..32) \cup {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
TabPolicy(line) ==
  LET e == Skip(line, 1, {SP, TAB}) tab == FindIn(line, 1, {TAB}) sp == FindIn(line, 1, {SP})
      t2 == Skip(line, 1, {TAB})  \* end of the leading tabs
      late == FindIn(line, t2, {TAB})
  IN IF ~G.tabs THEN IF tab < e THEN <<tab - 1, Cp("Tab-policy violation. Found tab but should be space")>> ELSE <<>>
     ELSE IF G.policy = "round-up" THEN IF sp < e THEN <<sp - 1, Cp("Tab-policy violation. Found space but should be tab")>> ELSE <<>>
     ELSE IF late < e THEN <<t2 - 1, Cp("Tab-policy violation. Found space but should be tab")>> ELSE <<>>
LineMsgs(raw, n, last) ==
  LET win == Len(raw) > 0 /\ raw[Len(raw)] = CR
      line == IF win THEN SubSeq(raw, 1, Len(raw) - 1) ELSE raw
      tp == TabPolicy(line)
  IN (IF win /\ G.ending = "unix" THEN <<Msg("C0327", n, -1, Cp("Wrong line ending (windows)"))>>
      ELSE IF ~win /\ ~last /\ G.ending = "windows" THEN <<Msg("C0327", n, -1, Cp("Wrong line ending (unix)"))>> ELSE <<>>)
     \o (IF Len(line) > G.width THEN <<Msg("C0301", n, -1, Cp("Line too long (") \o Dec(Len(line)) \o Cp("/") \o Dec(G.width) \o Cp(")"))>> ELSE <<>>)
     \o (IF Len(line) > 0 /\ line[Len(line)] \in PySpace THEN <<Msg("C0303", n, -1, Cp("Trailing whitespace"))>> ELSE <<>>)
     \o (IF tp # <<>> THEN <<Msg("C0306", n, tp[1], tp[2])>> ELSE <<>>)
RECURSIVE AllLines(_, _)
AllLines(lines, n) == IF n > Len(lines) THEN <<>> ELSE LineMsgs(lines[n], n, n = Len(lines)) \o AllLines(lines, n + 1)
Layout == LET lines == Lines(X) IN
  AllLines(lines, 1) \o (IF Chr(X, Len(X)) # LF THEN <<Msg("C0304", Len(lines), -1, Cp("Final newline missing"))>> ELSE <<>>)

(* -------------------------------- locations ------------------------------ *)
\* <<line, start of the line>> of position p, from position q on line n that starts at s
RECURSIVE Loc(_, _, _, _)
Loc(p, q, n, s) == LET a == FindIn(X, q, {LF}) IN IF a >= p THEN <<n, s>> ELSE Loc(p, a + 1, n + 1, a + 1)
At(p) == Loc(p, i, ln, ls)
RECURSIVE LFs(_, _)
LFs(p, q) == LET a == FindIn(X, p, {LF}) IN IF a >= q THEN 0 ELSE 1 + LFs(a + 1, q)

(* ------------------------------- statements ------------------------------ *)
\* the elements between the parentheses, comments left out; e: position after
\* the right parenthesis, 0: there is none
RECURSIVE Collect(_, _, _)
Collect(p, depth, acc) ==
  LET ev == NextEvent(X, p) IN
  CASE ev.k \in {"eof", "bad"} -> [w |-> acc, e |-> 0]
    [] ev.k = ")" /\ depth = 0 -> [w |-> acc, e |-> ev.e]
    [] IsComment(ev) -> Collect(ev.e, depth, acc)
    [] ev.k = "(" -> Collect(ev.e, depth + 1, Append(acc, ev))
    [] ev.k = ")" -> Collect(ev.e, depth - 1, Append(acc, ev))
    [] OTHER -> Collect(ev.e, depth, Append(acc, ev))
T(w) == TextOf(X, w)
Flat(ws) == \A k \in 1..Len(ws) : ws[k].k \notin {"(", ")"}
IsWord(w) == w.k = "u" /\ X[w.s] \in IdStart /\ \A k \in w.s..w.e - 1 : X[k] \in IdChar

(* --------------------------------- names --------------------------------- *)
InRanges(ch, r) == \E k \in 1..Len(r) : r[k][1] <= ch /\ ch <= r[k][2]
\* the ends of the matches of item at: n times matched so far
RECURSIVE Ends(_, _, _, _)
Ends(name, p, item, n) ==
  (IF n >= item.mn THEN {p} ELSE {})
  \cup (IF p <= Len(name) /\ InRanges(name[p], item.r) /\ (item.mx = 0 \/ n < item.mx) THEN Ends(name, p + 1, item, n + 1) ELSE {})
RECURSIVE Match(_, _, _, _)
Match(name, alt, k, ps) ==
  IF ps = {} THEN FALSE
  ELSE IF k > Len(alt) THEN TRUE
  ELSE Match(name, alt, k + 1, IF alt[k].mn = -1 THEN {p \in ps : p = Len(name) + 1}
                               ELSE UNION {Ends(name, p, alt[k], 0) : p \in ps})
Matches(name, pat) == \E a \in 1..Len(pat.alts) : Match(name, pat.alts[a], 1, {1})
BadName(kind, name, pat) == Cp("Invalid ") \o kind \o Cp(" name \"") \o name \o Cp("\" doesn't match `") \o pat.text \o Cp("`")

RefChar == IdChar \cup {46, 47, 43, 45}
RECURSIVE RefEnd(_, _)
RefEnd(t, p) ==
  LET e == Skip(t, p, RefChar) IN
  IF Chr(t, e) = BSLASH /\ e < Len(t) /\ t[e + 1] \notin RefChar THEN RefEnd(t, e + 2) ELSE e
RECURSIVE Backslashes(_, _)
Backslashes(t, p) == IF p < 1 \/ t[p] # BSLASH THEN 0 ELSE 1 + Backslashes(t, p - 1)
\* the first ${NAME}: <<position, position after it>>
RECURSIVE FindRef(_, _)
FindRef(t, p) ==
  LET a == FindIn(t, p, {DOLLAR}) IN
  IF a > Len(t) THEN <<>>
  ELSE LET e == RefEnd(t, a + 2) IN
       IF Chr(t, a + 1) = 123 /\ e > a + 2 /\ Chr(t, e) = 125 /\ Backslashes(t, a - 1) % 2 = 0 THEN <<a, e + 1>> ELSE FindRef(t, a + 1)
\* a name without the references to variables in it
RECURSIVE NoRefs(_)
NoRefs(t) == LET f == FindRef(t, 1) IN IF f = <<>> THEN t ELSE NoRefs(SubSeq(t, 1, f[1] - 1) \o SubSeq(t, f[2], Len(t)))

\* ------------------------- built-in variables ---------------------------
Builtin == JsonDeserialize("builtin_vars.json")
BuiltinNames == {Builtin.names[k] : k \in 1..Len(Builtin.names)}
BuiltinLower == {ToLower(Builtin.names[k]) : k \in 1..Len(Builtin.names)}
BuiltinParts == Builtin.parts
FitsPart(t, p) == Len(t) >= Len(p[1]) + Len(p[2]) /\ SubSeq(t, 1, Len(p[1])) = p[1] /\ SubSeq(t, Len(t) - Len(p[2]) + 1, Len(t)) = p[2]
\* the name of a built-in variable, or one with a variable part
IsBuiltin(t) == t \in BuiltinNames \/ \E k \in 1..Len(BuiltinParts) : FitsPart(t, BuiltinParts[k])
\* a built-in name but for the letter case
Misspelt(t) == /\ ToLower(t) \in BuiltinLower /\ t \notin BuiltinNames
               /\ \A k \in 1..Len(BuiltinParts) : ~FitsPart(ToLower(t), <<ToLower(BuiltinParts[k][1]), ToLower(BuiltinParts[k][2])>>)
MisspeltMsg(how, name, l, col) == IF Misspelt(name) THEN <<Msg("W0105", l[1], col, how \o Cp(" variable '") \o name \o Cp("' which matches a built-in except for case"))>> ELSE <<>>
\* the variables referred to, innermost ones of nested references
RECURSIVE RefNames(_, _)
RefNames(t, p) ==
  LET a == FindIn(t, p, {DOLLAR}) IN
  IF a > Len(t) THEN <<>>
  ELSE LET e == Skip(t, a + 2, IdChar) IN
       IF Chr(t, a + 1) = 123 /\ e > a + 2 /\ Chr(t, e) = 125 /\ Backslashes(t, a - 1) % 2 = 0
       THEN <<SubSeq(t, a + 2, e - 1)>> \o RefNames(t, e) ELSE RefNames(t, a + 1)
RECURSIVE SubRefs(_)
SubRefs(t) == LET f == FindRef(t, 1) IN IF f = <<>> THEN t ELSE SubRefs(SubSeq(t, 1, f[1] - 1) \o Cp("foo") \o SubSeq(t, f[2], Len(t)))
\* the first lone $ or {, or the first ${, with a name behind it: <<position, position of the name>>
Names0(t, p) == Skip(t, p, IdChar) > p
RECURSIVE Lone(_, _)
Lone(t, p) ==
  LET a == FindIn(t, p, {DOLLAR, 123}) IN
  IF a > Len(t) THEN <<>>
  ELSE IF Names0(t, a + 1) /\ Backslashes(t, a - 1) % 2 = 0 /\ (t[a] = DOLLAR \/ Chr(t, a - 1) # DOLLAR) THEN <<a, a + 1>> ELSE Lone(t, a + 1)
RECURSIVE Unclosed(_, _)
Unclosed(t, p) ==
  LET a == FindIn(t, p, {DOLLAR}) IN
  IF a > Len(t) THEN <<>>
  ELSE IF Chr(t, a + 1) = 123 /\ Names0(t, a + 2) /\ Backslashes(t, a - 1) % 2 = 0 THEN <<a, a + 2>> ELSE Unclosed(t, a + 1)
NearRef(w) ==
  LET t == SubRefs(T(w)) l == At(w.s) a == Lone(t, 1) b == Unclosed(t, 1)
      N(f) == SubSeq(t, f[2], Skip(t, f[2], IdChar) - 1)
      All(f) == SubSeq(t, f[1], f[2] - 1) \o N(f)
      M(tag, f) == <<Msg("W0106", l[1], w.s - l[2], Cp("String looks like a variable reference missing an ") \o tag \o Cp(" tag '") \o All(f) \o Cp("'"))>>
  IN IF a # <<>> /\ All(a) = Cp("$ENV") THEN <<>>
     ELSE IF a # <<>> /\ IsBuiltin(N(a)) THEN M(Cp("open"), a)
     ELSE IF b # <<>> /\ IsBuiltin(N(b)) THEN M(Cp("closing"), b)
     ELSE <<>>
RECURSIVE RefMsgs(_, _, _)
RefMsgs(ws, k, all) ==
  IF k > Len(ws) THEN <<>>
  ELSE (IF ws[k].k \notin {"u", "q", "b"} THEN <<>>
        ELSE LET l == At(ws[k].s)
                 ns == IF ws[k].k = "b" THEN <<>> ELSE RefNames(T(ws[k]), 1)
                 M[j \in 0..Len(ns)] == IF j = 0 THEN <<>> ELSE M[j - 1] \o MisspeltMsg(Cp("Reference to"), ns[j], l, ws[k].s - l[2])
             IN M[Len(ns)] \o NearRef(ws[k]))
       \o RefMsgs(ws, k + 1, all)
\* what set() and list() change
AssignMsgs(name, ws) ==
  LET At1(w) == LET l == At(w.s) IN MisspeltMsg(Cp("Assignment to"), T(w), l, w.s - l[2]) IN
  IF name = Cp("set") /\ Len(ws) > 0 THEN At1(ws[1])
  ELSE IF name = Cp("list") /\ Len(ws) > 1 THEN At1(ws[2]) ELSE <<>>

\* ------------------------------ indentation ------------------------------
\* l: <<line, its start>> of position p: the columns before p, -1 if p is
\* not the first thing on its line or stands at its start
Indent(p, l) ==
  IF p = l[2] \/ \E k \in l[2]..p - 1 : X[k] \notin {SP, TAB} THEN -1
  ELSE LET n == p - l[2] IN n + (G.tab - 1) * Cardinality({k \in l[2]..p - 1 : X[k] = TAB})
Misplaced(p, depth, inside) ==
  LET l == At(p) n == Indent(p, l) d == depth * G.tab IN
  IF n >= 0 /\ (IF inside THEN n < d ELSE n # d) THEN <<Msg("C0307", l[1], p - l[2], <<>>)>> ELSE <<>>
\* everything from p up to the right parenthesis before e
RECURSIVE ArgIndents(_, _, _)
ArgIndents(p, e, depth) ==
  LET ev == NextEvent(X, p) IN
  IF ev.e >= e THEN Misplaced(ev.s, depth, FALSE)
  ELSE Misplaced(ev.s, depth, TRUE) \o ArgIndents(ev.e, e, depth)

Either(a, b) == [text |-> a.text \o Cp("|") \o b.text, alts |-> a.alts \o b.alts]
\* the kind of frame that is the scope of an assignment
RECURSIVE ScopeFrom(_)
ScopeFrom(k) == IF k < 1 THEN "directory" ELSE IF stk[k].b \in {"function", "macro"} THEN stk[k].b ELSE ScopeFrom(k - 1)
KindOf(scope) == CASE scope = "cache" -> Cp("CACHE variable") [] scope = "internal" -> Cp("INTERNAL variable")
                   [] scope = "parent" \/ scope = "macro" -> Cp("PARENT_SCOPE variable")
                   [] scope = "function" -> Cp("local variable") [] OTHER -> Cp("directory variable")
PatOf(scope) == CASE scope = "cache" -> G.pat.global [] scope = "internal" -> G.pat.internal
                  [] scope = "parent" \/ scope = "macro" -> Either(Either(G.pat.public, G.pat.private), G.pat.local)
                  [] scope = "function" -> G.pat.local [] OTHER -> Either(G.pat.public, G.pat.private)
Named(scope, w) ==
  LET r == NoRefs(T(w)) l == At(w.s) IN
  IF r = <<>> \/ Matches(r, PatOf(scope)) THEN <<>>
  ELSE <<Msg("C0103", l[1], w.s - l[2], BadName(KindOf(scope), T(w), PatOf(scope)))>>
UpperOf(w) == IF IsWord(w) THEN ToUpper(T(w)) ELSE <<>>
\* set(): result [ok, m]
SetMsgs(ws) ==
  LET caches == {k \in 2..Len(ws) : UpperOf(ws[k]) = Cp("CACHE")}
      parents == {k \in 2..Len(ws) : UpperOf(ws[k]) = Cp("PARENT_SCOPE")}
      first == CHOOSE k \in caches : \A j \in caches : k <= j
      type == IF first < Len(ws) THEN T(ws[first + 1]) ELSE <<>>
  IN IF ~Flat(ws) \/ Len(ws) = 0 \/ Cardinality(caches) > 1 \/ (caches # {} /\ parents # {}) \/ (caches # {} /\ first = Len(ws))
        \/ UpperOf(ws[1]) \in {Cp("CACHE"), Cp("PARENT_SCOPE")}
     THEN [ok |-> FALSE, m |-> <<>>]
     ELSE [ok |-> TRUE, m |-> Named(IF caches # {} THEN IF type = Cp("INTERNAL") THEN "internal" ELSE "cache"
                                    ELSE IF parents # {} THEN "parent" ELSE ScopeFrom(Len(stk)), ws[1])]
ListMsgs(ws) ==
  LET form == IF Len(ws) > 0 THEN UpperOf(ws[1]) ELSE <<>>
      n == Len(ws)
  IN IF ~Flat(ws) \/ n < 2 THEN [ok |-> FALSE, m |-> <<>>]
     ELSE IF form \notin {Cp("LENGTH"), Cp("GET"), Cp("JOIN"), Cp("SUBLIST")} THEN [ok |-> TRUE, m |-> <<>>]
     ELSE IF (form = Cp("LENGTH") /\ n = 3) \/ (form = Cp("JOIN") /\ n = 4) \/ (form = Cp("SUBLIST") /\ n = 5) \/ (form = Cp("GET") /\ n >= 4)
     THEN [ok |-> TRUE, m |-> Named(ScopeFrom(Len(stk)), ws[n])]
     ELSE [ok |-> FALSE, m |-> <<>>]
\* the names of the arguments of a definition: <<WORD, ...>>
RECURSIVE ArgNames(_, _, _)
ArgNames(ws, k, seen) ==
  IF k > Len(ws) THEN <<>>
  ELSE LET t == T(ws[k]) l == At(ws[k].s) M(id, text) == <<Msg(id, l[1], ws[k].s - l[2], text)>> IN
       IF ~IsWord(ws[k]) THEN M("E0109", Cp("Invalid argument name ") \o t \o Cp(" in function/macro definition")) \o ArgNames(ws, k + 1, seen)
       ELSE (IF t \in seen THEN M("E0108", Cp("Duplicate argument name ") \o t \o Cp(" in function/macro definition"))
             ELSE IF ToLower(t) \in {ToLower(s) : s \in seen} THEN M("C0202", Cp("Argument name ") \o t \o Cp(" differs from existing argument only in case"))
             ELSE IF ~Matches(t, G.pat.argument) THEN M("C0103", BadName(Cp("argument"), t, G.pat.argument)) ELSE <<>>)
            \o ArgNames(ws, k + 1, seen \cup {t})
DefnMsgs(kind, ev, ws) ==
  LET l == At(ws[1].s) l0 == At(ev.s) pat == IF kind = "function" THEN G.pat.function ELSE G.pat.macro IN
  (IF Matches(T(ws[1]), pat) THEN <<>> ELSE <<Msg("C0103", l[1], ws[1].s - l[2], BadName(IF kind = "function" THEN Cp("function") ELSE Cp("macro"), T(ws[1]), pat))>>)
  \o ArgNames(ws, 2, {})
  \o (IF Len(ws) - 1 > G.maxarg THEN <<Msg("R0913", l0[1], ev.s - l0[2], Ratio(Cp("Too many named arguments"), Len(ws) - 1, G.maxarg))>> ELSE <<>>)
LoopMsgs(ws) ==
  LET l == At(ws[1].s) IN
  IF Matches(T(ws[1]), G.pat.argument) THEN <<>> ELSE <<Msg("C0103", l[1], ws[1].s - l[2], BadName(Cp("argument"), T(ws[1]), G.pat.argument))>>

(* ----------------------------- the listfile ------------------------------ *)
NoTrail == [on |-> FALSE, used |-> FALSE, ln |-> 0, col |-> 0, open |-> FALSE]
NoDoc == [k |-> "none", empty |-> TRUE, ln |-> 0, col |-> 0]
Frame(b, l, col) == [b |-> b, ln |-> l, col |-> col, last |-> l, jumps |-> <<>>, snap |-> cnt, lv |-> <<>>, argn |-> FALSE, n |-> 0, cand |-> <<>>, parse |-> FALSE]
Init == /\ c \in 1..Len(Cases)
        /\ i = 1 /\ ln = 1 /\ ls = 1 /\ cnt = <<0, 0, 0>>
        /\ stk = <<[b |-> "file", ln |-> 0, col |-> 0, last |-> 0, jumps |-> <<>>, snap |-> <<0, 0, 0>>,
                     lv |-> <<>>, argn |-> FALSE, n |-> 0, cand |-> <<>>, parse |-> FALSE]>>
        /\ prev = [k |-> "none", e |-> 1] /\ doc = NoDoc /\ tr = NoTrail
        /\ exp = <<>> /\ dc = {} /\ st = "lines"

LinesStep ==
  /\ st = "lines"
  /\ IF Len(X) = 0 \/ X[1] = BOM THEN Stop("skip-not-modelled", 1)
     ELSE exp' = Layout /\ st' = "body" /\ UNCHANGED <<c, i, ln, ls, stk, prev, doc, tr, dc, cnt>>

Top == stk[Len(stk)]
Openers == {"if", "foreach", "while", "function", "macro"}
NameText == [if |-> Cp("if"), foreach |-> Cp("foreach"), while |-> Cp("while"), function |-> Cp("function"), macro |-> Cp("macro")]
EndText == [if |-> Cp("endif"), foreach |-> Cp("endforeach"), while |-> Cp("endwhile"),
            function |-> Cp("endfunction"), macro |-> Cp("endmacro"), file |-> <<0>>]
Jumps == {Cp("break"), Cp("continue"), Cp("return")}

\* the comment without its number signs is blank
BlankComment(t) ==
  LET n == Skip(t, 1, {HASH}) - 1 IN n < 10 /\ \A k \in n + 1..Len(t) : t[k] \in PySpace
BlankBracket(t) == \A k \in 2..Len(t) : t[k] \in PySpace \cup {LBRK, RBRK, EQUALS}

Compared == {K.ids[k] : k \in 1..Len(K.ids)}
Hints == "C0307" \in Compared
CommentStep(ev) ==
  LET l == At(ev.s) col == ev.s - l[2] t == TextOf(X, ev) le == Loc(ev.e, ev.s, l[1], l[2])
      sameline == ~tr.used /\ prev.k # "comment" /\ LFs(prev.e, ev.s) = 0 /\ prev.e > 1
      \* a comment on the line where a statement ended, or aligned below one that is
      chain == tr.on /\ ev.k = "lc" /\ l[1] = tr.ln + 1 /\ col = tr.col
      \* aligned with the comment of the body that is on the line above
      block == doc.k = "lc" /\ ev.k = "lc" /\ l[1] = doc.ln + 1 /\ col = doc.col
      special == (ev.k = "lc" /\ Len(t) > 1 /\ t[2] = 60)
                 \/ \E k \in 2..Len(t) : HasAt(t, k, TxtFormat) \/ HasAt(t, k, TxtCmf)
  IN IF special THEN Stop("skip-comment-not-modelled", ev.s)
     ELSE /\ i' = ev.e /\ ln' = le[1] /\ ls' = le[2]
          /\ IF sameline \/ chain
             THEN /\ tr' = [on |-> ev.k = "lc", used |-> TRUE, ln |-> l[1], col |-> col, open |-> tr.open]
                  /\ prev' = [prev EXCEPT !.e = ev.e]
                  /\ stk' = IF tr.open THEN [stk EXCEPT ![Len(stk)].last = l[1]] ELSE stk
                  /\ doc' = NoDoc
             ELSE /\ tr' = NoTrail /\ stk' = stk
                  /\ prev' = [k |-> "comment", e |-> ev.e]
                  /\ doc' = [k |-> ev.k, ln |-> l[1], col |-> col,
                             empty |-> IF ev.k = "bc" THEN BlankBracket(t) ELSE BlankComment(t) /\ (block => doc.empty)]
          /\ exp' = exp \o (IF Hints THEN Misplaced(ev.s, Len(stk) - 1 - (IF (sameline \/ chain) /\ tr.open THEN 1 ELSE 0), FALSE) ELSE <<>>)
          /\ UNCHANGED <<c, dc, cnt, st>>

Spacing(ev, l) ==
  LET n == LFs(prev.e, ev.s) col == ev.s - l[2] touching == ev.s = prev.e IN
  IF prev.k = "none" /\ Len(stk) = 1 /\ n = 0 THEN <<>>
  ELSE IF n = 0 THEN <<Msg("C0321", l[1], col, Cp("Multiple statements on a single line"))>>
  ELSE IF n < G.min THEN <<Msg("C0305", l[1], col, Cp("not enough newlines between statements"))>>
  ELSE IF n > G.max THEN <<Msg("C0305", l[1], col, Cp("too many newlines between statements"))>>
  ELSE <<>>
SpacingUnknown(ev, l) == IF prev.k = "comment" /\ LFs(prev.e, ev.s) = 0 THEN {<<"C0321", l[1]>>, <<"C0305", l[1]>>} ELSE {}
DocMsgs(ev, l) ==
  LET n == LFs(prev.e, ev.s) col == ev.s - l[2] IN
  IF prev.k = "comment" /\ doc.k # "none" /\ n <= 1 /\ ev.s > prev.e
  THEN IF doc.empty THEN <<Msg("C0112", l[1], col, Cp("Empty docstring on function or macro declaration"))>> ELSE <<>>
  ELSE <<Msg("C0111", l[1], col, Cp("Missing docstring on function or macro declaration"))>>
\* the jumps before a statement of the same body make it unreachable
Unreachable == LET j == Top.jumps IN SubSeq([k \in 1..Len(j) |-> Msg("W0101", j[k][1], j[k][2], Cp("Unreachable code"))], 1, Len(j))
\* -------------------- loops that parse the arguments ----------------------
ConditionNames == {Cp("if"), Cp("elseif"), Cp("else"), Cp("endif"), Cp("while"), Cp("endwhile")}
IsAndOr(w) == w.k = "u" /\ ToUpper(T(w)) \in {Cp("AND"), Cp("OR")}
\* conditions that compare the variable lv
Compares(ws, lv) == Cardinality({k \in 1..Len(ws) - 1 :
  /\ k = 1 \/ ws[k - 1].k = "(" \/ IsAndOr(ws[k - 1])
  /\ ~IsAndOr(ws[k]) /\ ws[k].k \notin {"(", ")"} /\ T(ws[k]) = lv /\ T(ws[k + 1]) \in {Cp("STREQUAL"), Cp("MATCHES")}})
Counted(s, name, ws) == IF name \notin ConditionNames THEN s
  ELSE SubSeq([k \in 1..Len(s) |-> IF s[k].argn THEN [s[k] EXCEPT !.n = @ + Compares(ws, s[k].lv)] ELSE s[k]], 1, Len(s))
\* the frames s after the block f, which was in them, was closed
Closed(s, f) ==
  IF ~f.argn \/ f.n <= G.maxcond THEN s
  ELSE SubSeq([k \in 1..Len(s) |-> IF s[k].b \in {"function", "macro"} THEN [s[k] EXCEPT !.cand = Append(@, <<Len(s), f.ln, f.col>>)] ELSE s[k]], 1, Len(s))
ParserMsgs(f) ==
  IF f.parse \/ f.cand = <<>> THEN <<>>
  ELSE LET Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
           k == CHOOSE k \in 1..Len(f.cand) : \A j \in 1..Len(f.cand) : Before(f.cand[k], f.cand[j])
       IN <<Msg("C0201", f.cand[k][2], f.cand[k][3], Cp("Consider replacing custom parser logic with cmake_parse_arguments"))>>

CloseMsgs ==
  LET f == Top line == f.last + 1
      M(id, text, n, max) == IF n > max THEN <<Msg(id, line, -1, Ratio(text, n, max))>> ELSE <<>>
  IN IF f.b \notin {"function", "macro"} THEN <<>>
     ELSE ParserMsgs(f) \o M("R0915", Cp("Too many statements"), cnt[1] - f.snap[1], G.maxst)
          \o M("R0912", Cp("Too many branches"), cnt[2] - f.snap[2], G.maxbr)
          \o M("R0911", Cp("Too many return statements"), cnt[3] - f.snap[3], G.maxret)

InLoop == \E k \in 1..Len(stk) : stk[k].b \in {"foreach", "while"}
Count(name) == <<cnt[1] + 1, IF name \in {Cp("if"), Cp("elseif"), Cp("else")} THEN cnt[2] + 1 ELSE cnt[2],
                 IF name = Cp("return") THEN cnt[3] + 1 ELSE cnt[3]>>
StatementStep(ev) ==
  LET name == ToLower(T(ev)) l == At(ev.s) col == ev.s - l[2]
      op == NextEvent(X, ev.e)
      a == IF op.k = "(" THEN Collect(op.e, 0, <<>>) ELSE [w |-> <<>>, e |-> 0]
      ws == a.w
      le == At(a.e) rp == At(a.e - 1)
      part == Top.b = "if" /\ name \in {Cp("else"), Cp("elseif")}
      closes == name = EndText[Top.b]
      opens == {b \in Openers : NameText[b] = name}
      kind == CHOOSE b \in opens : TRUE
      own == CASE opens # {} ->
                    IF kind \in {"function", "macro"} /\ Flat(ws) /\ Len(ws) > 0 THEN [ok |-> TRUE, m |-> DefnMsgs(kind, ev, ws)]
                    ELSE IF kind = "foreach" /\ Len(ws) > 1 THEN [ok |-> TRUE, m |-> LoopMsgs(ws)]
                    ELSE [ok |-> kind \in {"if", "while"}, m |-> <<>>]
               [] name = Cp("set") -> SetMsgs(ws)
               [] name = Cp("list") -> ListMsgs(ws)
               [] name \in {Cp("break"), Cp("continue")} ->
                    [ok |-> TRUE, m |-> IF InLoop THEN <<>> ELSE <<Msg("E0103", l[1], col, name \o Cp(" outside of loop"))>>]
               [] OTHER -> [ok |-> TRUE, m |-> <<>>]
      depth == Len(stk) - 1 - (IF part \/ closes THEN 1 ELSE 0)
      hints == IF ~Hints THEN <<>>
               ELSE Misplaced(ev.s, depth, FALSE) \o ArgIndents(op.e, a.e, depth) \o RefMsgs(ws, 1, 0) \o AssignMsgs(name, ws)
      Parsing(s) == IF name # Cp("cmake_parse_arguments") THEN s ELSE SubSeq([k \in 1..Len(s) |-> [s[k] EXCEPT !.parse = TRUE]], 1, Len(s))
      unknown == IF own.ok THEN {} ELSE {<<id, n>> : id \in {"C0103", "C0202", "E0108", "E0109", "R0913"}, n \in l[1]..le[1]}
  IN IF a.e = 0 \/ ~IsWord(ev) THEN Stop("skip-not-cmake", ev.s)
     ELSE
       /\ i' = a.e /\ ln' = le[1] /\ ls' = le[2] /\ doc' = NoDoc
       /\ IF part \/ closes
          THEN /\ exp' = exp \o (IF closes THEN CloseMsgs ELSE <<>>) \o hints
               /\ dc' = dc /\ cnt' = Count(name)
               /\ stk' = IF closes THEN Counted(Closed(SubSeq(stk, 1, Len(stk) - 1), Top), name, ws)
                         ELSE [Counted(stk, name, ws) EXCEPT ![Len(stk)].jumps = <<>>]
               /\ prev' = [k |-> IF closes THEN "stmt" ELSE "none", e |-> a.e]
               /\ tr' = [NoTrail EXCEPT !.open = part]
          ELSE /\ exp' = exp \o Unreachable \o Spacing(ev, l) \o own.m \o hints
                             \o (IF opens # {} /\ kind \in {"function", "macro"} THEN DocMsgs(ev, l) ELSE <<>>)
               /\ dc' = dc \cup unknown \cup SpacingUnknown(ev, l)
               /\ cnt' = Count(name)
               /\ LET stk1 == [Parsing(Counted(stk, name, ws)) EXCEPT ![Len(stk)].jumps = IF name \in Jumps THEN <<<<l[1], col>>>> ELSE <<>>] IN
                  stk' = IF opens # {} THEN Append(stk1, [b |-> kind, ln |-> l[1], col |-> col, last |-> rp[1], jumps |-> <<>>, snap |-> Count(name),
                                                           lv |-> IF ws = <<>> THEN <<>> ELSE T(ws[1]),
                                                           argn |-> kind \in {"foreach", "while"} /\ \E k \in 1..Len(ws) : ws[k].k = "u" /\ T(ws[k]) = Cp("${ARGN}"),
                                                           n |-> 0, cand |-> <<>>, parse |-> FALSE]) ELSE stk1
               /\ prev' = [k |-> IF opens # {} THEN "none" ELSE "stmt", e |-> a.e]
               /\ tr' = [NoTrail EXCEPT !.open = opens # {}]
       /\ UNCHANGED <<c, st>>

Relevant(m) == m.id \in Compared /\ <<m.id, m.ln>> \notin dc
Copies(m, q) == Cardinality({k \in 1..Len(q) : q[k] = m})
Conclude ==
  LET missing == {k \in 1..Len(exp) : Relevant(exp[k]) /\ Copies(exp[k], K.msgs) < Copies(exp[k], exp)}
      surplus == {k \in 1..Len(K.msgs) : Relevant(K.msgs[k]) /\ Copies(K.msgs[k], exp) < Copies(K.msgs[k], K.msgs)}
  IN IF missing # {} THEN LET k == CHOOSE k \in missing : TRUE IN Stop("missing-" \o exp[k].id, exp[k].ln)
     ELSE IF surplus # {} THEN LET k == CHOOSE k \in surplus : TRUE IN Stop("surplus-" \o K.msgs[k].id, K.msgs[k].ln)
     ELSE Stop("ok", Len(exp))
Body ==
  /\ st = "body"
  /\ LET ev == NextEvent(X, i) IN
     CASE ev.k = "eof" -> IF Len(stk) > 1 THEN Stop("skip-not-closed", ev.s) ELSE Conclude
       [] ev.k = "u" -> StatementStep(ev)
       [] IsComment(ev) -> CommentStep(ev)
       [] OTHER -> Stop("skip-not-cmake", ev.s)
Next == LinesStep \/ Body
=============================================================================
