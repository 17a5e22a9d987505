------------------------------ MODULE CMakeLang ------------------------------
(***************************************************************************)
(* The lexical grammar of the CMake language, cmake-language(7): command   *)
(* names, parentheses, bracket / quoted / unquoted arguments (with the     *)
(* legacy forms), bracket comments and line comments.  It is written from  *)
(* the CMake manual, independently of the tool's own lexer, and is the     *)
(* common foundation of the conformance specifications.                    *)
(***************************************************************************)
EXTENDS Text

\* the number of '=' of a bracket that opens at i, or -1
BracketOpen(t, i) ==
  IF Chr(t, i) # LBRK THEN -1
  ELSE LET j == Skip(t, i + 1, {EQUALS}) IN IF Chr(t, j) = LBRK THEN j - i - 1 ELSE -1

\* the position after the bracket that closes a level n bracket, 0 if none
RECURSIVE BracketEnd(_, _, _)
BracketEnd(t, i, n) ==
  LET j == FindIn(t, i, {RBRK}) IN
  IF j > Len(t) THEN 0
  ELSE LET k == Skip(t, j + 1, {EQUALS}) IN
       IF k - j - 1 = n /\ Chr(t, k) = RBRK THEN k + 1 ELSE BracketEnd(t, k, n)

\* i is inside a quoted argument: the position after its closing quote, 0 if none
RECURSIVE QuotedEnd(_, _)
QuotedEnd(t, i) ==
  LET j == FindIn(t, i, {QUOTE, BSLASH}) IN
  IF j > Len(t) THEN 0 ELSE IF t[j] = QUOTE THEN j + 1 ELSE QuotedEnd(t, j + 2)

UnquotedStop == Space \cup {LPAR, RPAR, HASH}
\* where the unquoted (legacy) argument that starts or goes on at i ends
RECURSIVE UnquotedEnd(_, _)
UnquotedEnd(t, i) ==
  LET j == FindIn(t, i, UnquotedStop \cup {BSLASH, QUOTE, DOLLAR}) IN
  IF j > Len(t) \/ t[j] \in UnquotedStop THEN j
  ELSE IF t[j] = BSLASH THEN (IF Chr(t, j + 1) \in {-1, CR, LF} THEN j ELSE UnquotedEnd(t, j + 2))
  ELSE IF t[j] = QUOTE THEN
       LET e == QuotedEnd(t, j + 1) IN IF e = 0 THEN j ELSE UnquotedEnd(t, e)
  ELSE \* a make-style reference $(NAME) is part of the argument
       \* (any other "$(" is outside the domain of the specification)
       IF Chr(t, j + 1) # LPAR THEN UnquotedEnd(t, j + 1)
       ELSE LET k == Skip(t, j + 2, IdChar) IN
            IF k > j + 2 /\ Chr(t, k) = RPAR THEN UnquotedEnd(t, k + 1) ELSE j

\* end of the text of the line comment that starts at i (its line ending and
\* the blanks before it are not part of it)
LineEnd(t, i) == FindIn(t, i, {LF})
CommentEnd(t, i) == LET b == SkipBack(t, LineEnd(t, i) - 1, Blank \cup {CR}) IN b + 1

Ev(k, s, e) == [k |-> k, s |-> s, e |-> e]
\* an argument must be separated from the next one
Separated(t, e) == e > Len(t) \/ t[e] \in UnquotedStop
Fresh(t, i) == i = 1 \/ t[i - 1] \in Space \cup {LPAR, BOM}

(* The first lexical element at or after i.  Kinds: eof, ( ) lc (line comment),
   bc (bracket comment), q (quoted), b (bracket), u (unquoted), bad (not in
   the language).                                                           *)
NextEvent(t, i0) ==
  LET i == Skip(t, IF i0 = 1 /\ Chr(t, 1) = BOM THEN 2 ELSE i0, Space) c == Chr(t, i) IN
  IF c = -1 THEN Ev("eof", i, i)
  ELSE IF c = LPAR THEN Ev("(", i, i + 1)
  ELSE IF c = RPAR THEN Ev(")", i, i + 1)
  ELSE IF c = HASH THEN
    LET n == BracketOpen(t, i + 1) IN
    IF n >= 0 THEN LET e == BracketEnd(t, i + n + 3, n) IN
                   IF e = 0 THEN Ev("bad", i, i + 1) ELSE Ev("bc", i, e)
    ELSE Ev("lc", i, CommentEnd(t, i))
  ELSE IF c = QUOTE THEN
    LET e == QuotedEnd(t, i + 1) IN
    IF e = 0 \/ ~Separated(t, e) \/ ~Fresh(t, i) THEN Ev("bad", i, i + 1) ELSE Ev("q", i, e)
  ELSE LET n == BracketOpen(t, i) IN
    IF n >= 0 THEN LET e == BracketEnd(t, i + n + 2, n) IN
                   IF e = 0 \/ ~Separated(t, e) \/ ~Fresh(t, i) \/ Chr(t, e) = LPAR
                   THEN Ev("bad", i, i + 1) ELSE Ev("b", i, e)
    ELSE LET e == UnquotedEnd(t, i) IN
         IF e = i \/ ~Separated(t, e) THEN Ev("bad", i, i + 1) ELSE Ev("u", i, e)

\* texts of the formatting switches
TxtFormat == Cp("cmake-format: ")
TxtCmf == Cp("cmf: ")
TxtOff == Cp("off")
TxtOn == Cp("on")

IsComment(ev) == ev.k \in {"lc", "bc"}
TextOf(t, ev) == SubSeq(t, ev.s, ev.e - 1)

\* text without the carriage returns of its line endings
DropCR(s) == IF \E i \in 1..Len(s) : s[i] = CR
             THEN LET Keep(i) == ~(s[i] = CR /\ Chr(s, i + 1) = LF)
                      F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE IF Keep(i) THEN Append(F[i - 1], s[i]) ELSE F[i - 1]
                  IN F[Len(s)]
             ELSE s
SameText(a, b) == a = b \/ DropCR(a) = DropCR(b)
SameNoCase(a, b) == Len(a) = Len(b) /\ ToLower(a) = ToLower(b)
=============================================================================
