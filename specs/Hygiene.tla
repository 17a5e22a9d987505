------------------------------ MODULE Hygiene -------------------------------
(***************************************************************************)
(* C08.  Reads the formatted text y (for the listfile x) one element per   *)
(* step and checks the white space in front of every element.              *)
(*                                                                         *)
(* Case: x, y; err; le: "unix" | "windows" | "auto"; tab: tab_size;        *)
(* tabs: use_tabchars; frac: fractional_tab_policy; bom:         *)
(* emit_byteorder_mark; exact: 1 if x has no comments (then every run of   *)
(* blank lines between two elements at depth 0 can be predicted).          *)
(***************************************************************************)
EXTENDS CMakeLang, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c,    \* case
          j,    \* reader of y
          i,    \* reader of x (exact cases only)
          d,    \* parenthesis depth, -1 when decided
          n,    \* block nesting
          off,  \* inside an off-region
          pr,   \* what the previous element was
          kind  \* the line ending that is due
vars == <<c, j, i, d, n, off, pr, kind>>
K == Cases[c]
Y == Cases[c].y
X == Cases[c].x
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ d' = -1 /\ UNCHANGED <<c, j, i, n, off, pr, kind>>

\* the majority of the line endings of x
RECURSIVE CountEnds(_, _, _, _)
CountEnds(t, p, lf, crlf) ==
  LET q == FindIn(t, p, {LF}) IN
  IF q > Len(t) THEN IF crlf > lf THEN "windows" ELSE "unix"
  ELSE IF q > 1 /\ t[q - 1] = CR THEN CountEnds(t, q + 1, lf, crlf + 1) ELSE CountEnds(t, q + 1, lf + 1, crlf)
Ending(k) == IF Cases[k].le = "auto" THEN CountEnds(Cases[k].x, 1, 0, 0) ELSE Cases[k].le

Start(t) == IF Chr(t, 1) = BOM THEN 2 ELSE 1
Init == /\ c \in 1..Len(Cases)
        /\ j = Start(Cases[c].y) /\ i = 1 /\ d = 0 /\ n = 0 /\ off = FALSE /\ pr = "start" /\ kind = Ending(c)

\* every line ending of s (as text positions a..b of Y) is of the right kind
BadEnding(a, b, kd) ==
  \E q \in a..b : \/ Y[q] = LF /\ (kd = "windows") # (q > 1 /\ Y[q - 1] = CR)
                  \/ Y[q] = CR /\ Chr(Y, q + 1) # LF

\* white space a..b-1 : positions of its LFs
RECURSIVE CountLF(_, _, _)
CountLF(a, b, t) == IF a >= b THEN 0 ELSE CountLF(a + 1, b, t) + (IF t[a] = LF THEN 1 ELSE 0)
RECURSIVE LastLF(_, _)
LastLF(a, b) == IF b <= a THEN 0 ELSE IF Y[b - 1] = LF THEN b - 1 ELSE LastLF(a, b - 1)
\* a blank in front of a line ending
BlankBeforeEnd(a, b) == \E q \in a..(b - 1) : Y[q] \in Blank /\ Chr(Y, q + 1) \in {LF, CR}

\* the indentation s..e-1 is written as configured, width in columns
IndentOk(s, e) ==
  LET t == Skip(Y, s, {TAB}) IN
  IF K.tabs = 0 THEN \A q \in s..(e - 1) : Y[q] = SP
  ELSE /\ \A q \in t..(e - 1) : Y[q] = SP
       /\ IF K.frac = "round-up" THEN t = e ELSE e - t < K.tab
Width(s, e) == LET t == Skip(Y, s, {TAB}) IN (t - s) * K.tab + (e - t)

Openers == {Cp("if"), Cp("foreach"), Cp("while"), Cp("function"), Cp("macro")}
Middle == {Cp("else"), Cp("elseif")}
Closers == {Cp("endif"), Cp("endforeach"), Cp("endwhile"), Cp("endfunction"), Cp("endmacro")}

Switch(t, ev) ==
  IF ev.k # "lc" THEN "" ELSE
  LET s == TextOf(t, ev)
      a == Skip(s, 2, Blank)
      b == IF HasAt(s, a, TxtFormat) THEN a + 14 ELSE IF HasAt(s, a, TxtCmf) THEN a + 5 ELSE 0
  IN IF b = 0 THEN "" ELSE IF HasAt(s, b, TxtOff) THEN "off" ELSE IF HasAt(s, b, TxtOn) THEN "on" ELSE ""

Tool == d = 0 /\ j = Start(Y) /\ i = 1 /\ K.err # <<>>
Fails == Tool /\ Decide("error", 0)

Advance(ev, ex, name, sw, what) ==
  /\ j' = ev.e
  /\ i' = ex.e
  /\ d' = IF ev.k = "(" THEN d + 1 ELSE IF ev.k = ")" THEN d - 1 ELSE d
  /\ n' = IF d = 0 /\ name \in Openers THEN n + 1 ELSE IF d = 0 /\ name \in Closers THEN n - 1 ELSE n
  /\ off' = (sw = "off")
  /\ pr' = what
  /\ UNCHANGED <<c, kind>>

Step ==
  /\ d >= 0 /\ ~Tool
  /\ LET ev == NextEvent(Y, j)
         nl == CountLF(j, ev.s, Y)
         last == LastLF(j, ev.s)
         first == j = Start(Y)
         fresh == first \/ nl > 0          \* the element begins a line
         ls == IF nl > 0 THEN last + 1 ELSE j
         name == IF ev.k = "u" THEN ToLower(TextOf(Y, ev)) ELSE <<>>
         level == IF name \in Closers \cup Middle THEN n - 1 ELSE n
         ex == IF K.exact = 1 THEN NextEvent(X, i) ELSE ev
         xnl == IF K.exact = 1 THEN CountLF(i, ex.s, X) ELSE 0
         sw == Switch(Y, ev)
         \* one more line of a trailing comment: aligned with its first line
         cont == ev.k = "lc" /\ nl = 1 /\ pr = "trailing"
         \* the body of a block is empty: this is written as one empty line
         hollow == pr = "opener)" /\ name \in Closers \cup Middle
     IN
     IF first /\ (Chr(Y, 1) = BOM) # (K.bom = 1) THEN Decide("byte-order-mark", 1)
     ELSE IF off THEN
       \* verbatim region: only look for its end
       IF ev.k = "eof" THEN Decide("ok", ev.s)
       ELSE IF ev.k = "bad" THEN Decide("skip-region", ev.s)
       ELSE j' = ev.e /\ off' = (sw # "on") /\ UNCHANGED <<c, i, d, n, pr, kind>>
     ELSE IF ev.k = "bad" THEN Decide("output-not-cmake", ev.s)
     ELSE IF BadEnding(j, ev.s - 1, kind) THEN Decide("line-ending", j)
     ELSE IF BlankBeforeEnd(j, ev.s) THEN Decide("trailing-blank", j)
     ELSE IF ev.k = "eof" THEN
       IF Y = <<>> \/ Y[Len(Y)] # LF THEN Decide("no-final-newline", ev.s)
       ELSE IF nl # 1 /\ ~first THEN Decide("final-newlines", ev.s)
       ELSE Decide("ok", ev.s)
     ELSE IF first /\ ev.s # j THEN Decide("leading-space", j)
     ELSE IF d = 0 /\ nl > 2 THEN Decide("blank-lines", ev.s)
     ELSE IF d > 0 /\ nl > 1 THEN Decide("blank-lines-in-statement", ev.s)
     ELSE IF K.exact = 1 /\ d = 0 /\ ~first /\ ev.k = "u" /\ nl # (IF hollow \/ xnl >= 2 THEN 2 ELSE 1)
          THEN Decide("blank-lines-differ", ev.s)
     ELSE IF fresh /\ ~IndentOk(ls, ev.s) THEN Decide("indent-characters", ev.s)
     ELSE IF cont THEN Advance(ev, ex, name, sw, "trailing")
     ELSE IF fresh /\ d = 0 /\ ev.k # ")" /\ Width(ls, ev.s) # level * K.tab
             \* (a trailing comment that is moved to a line of its own)
             /\ ~(ev.k = "lc" /\ pr \in {"opener)", "moved"} /\ Width(ls, ev.s) = (n - 1) * K.tab) THEN Decide("indent-depth", ev.s)
     ELSE IF d = 0 /\ ~fresh /\ ev.k = "u" THEN Decide("statements-on-one-line", ev.s)
     ELSE IF ev.k \in {"q", "b"} /\ BadEnding(ev.s, ev.e - 1, kind) THEN Decide("line-ending-in-argument", ev.s)
     ELSE IF ev.k = "bc" /\ BadEnding(ev.s, ev.e - 1, kind) THEN Decide("line-ending-in-comment", ev.s)
     ELSE Advance(ev, ex, name, sw,
            IF d > 0 /\ ev.k # ")" THEN pr
            ELSE IF ev.k = "lc" THEN IF ~fresh THEN "trailing" ELSE IF pr \in {"opener)", "moved"} THEN "moved" ELSE "comment"
            ELSE IF d = 0 /\ name \in Openers \cup Middle THEN "opener"
            ELSE IF d = 0 /\ ev.k = "u" THEN "name"
            ELSE IF d = 0 /\ ev.k # "(" THEN "other"
            ELSE IF d = 1 /\ ev.k = ")" /\ pr = "opener" THEN "opener)"
            ELSE pr)

Next == Fails \/ Step
=============================================================================
