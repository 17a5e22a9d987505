----------------------------- MODULE TokenKinds -----------------------------
(***************************************************************************)
(* C02.  Reads the text with the CMake grammar (CMakeLang) and requires,   *)
(* element by element, that the tool's token has the same extent and the   *)
(* kind which corresponds to it.                                           *)
(* Case: x the text; err; toks: [k kind, e position after the token].      *)
(*                                                                         *)
(* Deliberate deviation of the tool, modelled: a text between apostrophes  *)
(* that stands where an argument can stand is one token.                   *)
(***************************************************************************)
EXTENDS CMakeLang, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, p
vars == <<c, k, p>>
X == Cases[c].x
Toks == Cases[c].toks
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ k' = -1 /\ UNCHANGED <<c, p>>

APOS == 39
RECURSIVE AposEnd(_, _)
AposEnd(t, i) == LET j == FindIn(t, i, {APOS, BSLASH}) IN
                 IF j > Len(t) THEN 0 ELSE IF t[j] = APOS THEN j + 1 ELSE AposEnd(t, j + 2)

Before(i) == i = 1 \/ X[i - 1] \in Space \cup {LPAR, BOM}
AfterArg(e) == e > Len(X) \/ X[e] \in Space \cup {RPAR}
AfterWord(e) == e > Len(X) \/ X[e] \in Space \cup {LPAR, RPAR}

\* the names of the tool
IsWord(s) == s[1] \in IdStart /\ Skip(s, 1, IdChar) > Len(s)
IsNumber(s) == LET i == IF s[1] = 45 THEN 2 ELSE 1 IN i <= Len(s) /\ Skip(s, i, Digit) > Len(s)
IsDeref(s) == Len(s) > 3 /\ s[1] = DOLLAR /\ s[2] = 123 /\ s[Len(s)] = 125
              /\ IsWord(SubSeq(s, 3, Len(s) - 1))
IsAtWord(s) == Len(s) > 2 /\ s[1] = AT /\ s[Len(s)] = AT /\ IsWord(SubSeq(s, 2, Len(s) - 1))

UnquotedKinds(i, e) ==
  LET s == SubSeq(X, i, e - 1) IN
  IF ~Before(i) THEN {"UNQUOTED_LITERAL", "WORD", "NUMBER", "DEREF", "ATWORD"}
  ELSE IF IsWord(s) THEN IF AfterWord(e) THEN {"WORD"} ELSE {"WORD", "UNQUOTED_LITERAL"}
  ELSE IF IsNumber(s) THEN IF AfterWord(e) THEN {"NUMBER"} ELSE {"NUMBER", "UNQUOTED_LITERAL"}
  ELSE IF IsAtWord(s) THEN IF AfterWord(e) THEN {"ATWORD"} ELSE {"ATWORD", "UNQUOTED_LITERAL"}
  ELSE IF IsDeref(s) THEN IF AfterArg(e) THEN {"DEREF"} ELSE {"DEREF", "UNQUOTED_LITERAL"}
  ELSE {"UNQUOTED_LITERAL"}

\* formatting switches:  # cmake-format: off|on ...   # cmf: off|on ...
SwitchKind(s) ==
  LET a == Skip(s, 2, Blank)
      b == IF HasAt(s, a, TxtFormat) THEN a + 14
           ELSE IF HasAt(s, a, TxtCmf) THEN a + 5 ELSE 0
  IN IF b = 0 THEN ""
     ELSE IF HasAt(s, b, TxtOff) THEN "FORMAT_OFF"
     ELSE IF HasAt(s, b, TxtOn) THEN "FORMAT_ON" ELSE ""

\* what the token at p must be: kinds and the range of positions it may end at
Want ==
  LET ch == Chr(X, p) IN
  IF ch = BOM /\ p = 1 THEN [kinds |-> {"BYTEORDER_MARK"}, lo |-> 2, hi |-> 2]
  ELSE IF ch \in Blank THEN LET e == Skip(X, p, Blank) IN [kinds |-> {"WHITESPACE"}, lo |-> e, hi |-> e]
  ELSE IF ch = LF THEN [kinds |-> {"NEWLINE"}, lo |-> p + 1, hi |-> p + 1]
  ELSE IF ch = CR THEN LET e == IF Chr(X, p + 1) = LF THEN p + 2 ELSE p + 1 IN [kinds |-> {"NEWLINE"}, lo |-> e, hi |-> e]
  ELSE LET ev == NextEvent(X, p)
           ap == IF ch = APOS /\ Before(p) THEN AposEnd(X, p + 1) ELSE 0 IN
  IF ap > 0 /\ AfterArg(ap) THEN [kinds |-> {"QUOTED_LITERAL"}, lo |-> ap, hi |-> ap]
  ELSE CASE ev.k = "bad" -> [kinds |-> {}, lo |-> 0, hi |-> 0]
    [] ev.k = "(" -> [kinds |-> {"LEFT_PAREN"}, lo |-> ev.e, hi |-> ev.e]
    [] ev.k = ")" -> [kinds |-> {"RIGHT_PAREN"}, lo |-> ev.e, hi |-> ev.e]
    [] ev.k = "q" -> [kinds |-> IF Before(ev.s) /\ AfterArg(ev.e) THEN {"QUOTED_LITERAL"} ELSE {"QUOTED_LITERAL", "UNQUOTED_LITERAL"},
                      lo |-> ev.e, hi |-> ev.e]
    [] ev.k = "b" -> [kinds |-> IF Before(ev.s) /\ AfterArg(ev.e) THEN {"BRACKET_ARGUMENT"} ELSE {"BRACKET_ARGUMENT", "UNQUOTED_LITERAL"},
                      lo |-> ev.e, hi |-> ev.e]
    [] ev.k = "u" -> [kinds |-> UnquotedKinds(ev.s, ev.e), lo |-> ev.e, hi |-> ev.e]
    [] ev.k = "bc" -> [kinds |-> {"BRACKET_COMMENT"}, lo |-> ev.e, hi |-> ev.e]
    [] ev.k = "lc" -> LET sw == SwitchKind(TextOf(X, ev)) IN
                      [kinds |-> IF sw = "" THEN {"COMMENT"} ELSE {sw}, lo |-> ev.e, hi |-> LineEnd(X, p)]

RECURSIVE Lexable(_, _)
Lexable(t, i) == LET ev == NextEvent(t, i) IN
                 IF ev.k = "bad" THEN FALSE ELSE IF ev.k = "eof" THEN TRUE ELSE Lexable(t, ev.e)
\* CMake drops the CR of CR LF when it reads a file; a lone CR is not text
BareCR == \E q \in 1..Len(X) : X[q] = CR /\ Chr(X, q + 1) # LF

Init == c \in 1..Len(Cases) /\ k = 1 /\ p = 1

Step ==
  /\ k >= 1
  /\ IF p > Len(X) THEN Decide(IF k <= Len(Toks) THEN "token-after-end" ELSE "ok", p)
     ELSE LET w == Want IN
          IF p = 1 /\ k = 1 /\ BareCR THEN Decide("skip-bare-cr", p)
          ELSE IF w.kinds = {} THEN Decide("skip-not-cmake", p)
          ELSE IF Cases[c].err # <<>> THEN Decide(IF Lexable(X, 1) THEN "refused-valid-text" ELSE "skip-refused", p)
          ELSE IF k > Len(Toks) THEN Decide("token-missing", p)
          ELSE IF Toks[k].k \notin w.kinds THEN Decide("kind-" \o Toks[k].k, p)
          ELSE IF Toks[k].e < w.lo \/ Toks[k].e > w.hi THEN Decide("extent-of-" \o Toks[k].k, p)
          ELSE k' = k + 1 /\ p' = Toks[k].e /\ UNCHANGED c

Next == Step
=============================================================================
