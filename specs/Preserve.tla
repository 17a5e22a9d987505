------------------------------ MODULE Preserve ------------------------------
(***************************************************************************)
(* C03, C04.  The product of two CMake readers, one over the listfile the  *)
(* tool was given (field x) and one over what it wrote (field y).  They    *)
(* advance in lock step, one code element (name, parenthesis, argument)    *)
(* per step.  In every step the elements must agree, and so must the       *)
(* comments passed on the way.                                             *)
(*                                                                         *)
(* Case fields: x, y: texts; err: failure of the tool (empty if none);     *)
(* kw: 1 if keywords may change case; rw: for each command of the file the *)
(* words its grammar knows (only they may); cm: how comments are compared: *)
(* "none", "exact" (markup off), "prose" (refilled: same words),           *)
(* "letters" (markup: same letters in the same order).                     *)
(***************************************************************************)
EXTENDS CMakeLang, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c,   \* the case
          i,   \* reader position in x
          j,   \* reader position in y
          d,   \* parenthesis depth (-1: decided)
          nm   \* the index in rw of the command that is being read (0: none)
vars == <<c, i, j, d, nm>>

X == Cases[c].x
Y == Cases[c].y

Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))

\* ------------------------------------------------------------- comments
\* the text of a line comment without its '#' (or '#<') marks
Body(t) == LET a == Skip(t, 1, {HASH}) b == IF Chr(t, a) = 60 THEN a + 1 ELSE a IN SubSeq(t, b, Len(t))
RECURSIVE Join(_, _)
Join(ws, k) == IF k > Len(ws) THEN <<>> ELSE <<SP>> \o ws[k] \o Join(ws, k + 1)
IsLetter(ch) == ch \in Alpha \/ ch > 127
\* a bracket comment keeps its text but for line endings and trailing blanks
RECURSIVE TrimLines(_, _)
TrimLines(ls, k) == IF k > Len(ls) THEN <<>> ELSE <<LF>> \o RStrip(ls[k], Blank \cup {CR}) \o TrimLines(ls, k + 1)

CommentRep(t, ev, mode) ==
  IF ev.k = "bc" THEN <<HASH, LBRK>> \o TrimLines(Lines(TextOf(t, ev)), 1)
  ELSE CASE mode = "exact" -> <<HASH>> \o TextOf(t, ev)
         [] mode = "prose" -> Join(Words(Body(TextOf(t, ev)), 1), 1)
         [] OTHER          -> SelectSeq(TextOf(t, ev), IsLetter)

\* the comments from position p on, and the code element after them
RECURSIVE Gap(_, _, _, _)
Gap(t, p, mode, acc) ==
  LET ev == NextEvent(t, p) IN
  IF ~IsComment(ev) THEN [ev |-> ev, com |-> acc]
  ELSE Gap(t, ev.e, mode, IF mode = "none" THEN acc ELSE acc \o CommentRep(t, ev, mode))

\* ----------------------------------------------------------------- steps
Init == /\ c \in 1..Len(Cases)
        /\ i = 1 /\ j = 1 /\ d = 0 /\ nm = 0

Tool == d = 0 /\ i = 1 /\ Cases[c].err # <<>>
Fails == /\ Tool /\ Verdict("error", 0)
         /\ d' = -1 /\ UNCHANGED <<c, i, j, nm>>

Decide(clause, pos) == /\ Verdict(clause, pos)
                       /\ d' = -1 /\ UNCHANGED <<c, i, j, nm>>

\* the command of a name, and whether a word belongs to its grammar
Command(s) == LET ks == {k \in 1..Len(Cases[c].rw) : Cases[c].rw[k].n = ToLower(s)}
              IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : TRUE
Known(s) == nm > 0 /\ \E k \in 1..Len(Cases[c].rw[nm].w) : Cases[c].rw[nm].w[k] = ToLower(s)

SameArg(a, b, name) ==
  /\ a.k = b.k
  /\ LET s == TextOf(X, a) r == TextOf(Y, b) IN
     \/ SameText(s, r)
     \/ SameNoCase(s, r) /\ (name \/ (a.k = "u" /\ Cases[c].kw = 1 /\ Known(s)))

Step ==
  /\ d >= 0 /\ ~Tool
  /\ LET gx == Gap(X, i, Cases[c].cm, <<>>)
         gy == Gap(Y, j, Cases[c].cm, <<>>)
         a == gx.ev
         b == gy.ev
     IN
     IF a.k = "bad" THEN Decide("skip-not-cmake", a.s)
     ELSE IF b.k = "bad" THEN Decide("output-not-cmake", b.s)
     ELSE IF gx.com # gy.com THEN Decide("comments-differ", b.s)
     ELSE IF a.k = "eof" /\ b.k = "eof" THEN Decide(IF d = 0 THEN "ok" ELSE "skip-unbalanced", a.s)
     ELSE IF a.k # b.k THEN Decide("element-" \o a.k \o "-became-" \o b.k, b.s)
     ELSE IF ~SameArg(a, b, d = 0) THEN Decide(IF d = 0 THEN "command-differs" ELSE "argument-differs", b.s)
     ELSE /\ i' = a.e /\ j' = b.e
          /\ d' = IF a.k = "(" THEN d + 1 ELSE IF a.k = ")" THEN d - 1 ELSE d
          /\ nm' = IF d = 0 /\ a.k # "(" THEN Command(TextOf(X, a)) ELSE nm
          /\ UNCHANGED c

Next == Fails \/ Step
=============================================================================
