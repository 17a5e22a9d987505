------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* C01.  The token stream tiles the text: one token per step, each must be *)
(* the text at the current position and carry the location of that         *)
(* position.  After the tokens, the parse tree's nodes: each is located    *)
(* where its first token is.                                               *)
(*                                                                         *)
(* Case: x the text; err; toks: [t text, l line, c column, o byte offset,  *)
(* el, ec, eo: the end]; nodes: [l, c, o, f] with f the index of the first *)
(* token of the node (0: none).                                            *)
(***************************************************************************)
EXTENDS CMakeLang, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, p, line, col, off
vars == <<c, k, p, line, col, off>>
X == Cases[c].x
Toks == Cases[c].toks
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ k' = -1 /\ UNCHANGED <<c, p, line, col, off>>

HasBom == Chr(X, 1) = BOM
Init == /\ c \in 1..Len(Cases)
        /\ k = 1 /\ p = 1 /\ line = 1 /\ col = 0 /\ off = 0

\* the lexer may refuse a text only if it is not a CMake text
RECURSIVE Lexable(_, _)
Lexable(t, i) == LET ev == NextEvent(t, i) IN
                 IF ev.k = "bad" THEN FALSE ELSE IF ev.k = "eof" THEN TRUE ELSE Lexable(t, ev.e)

Refused == k = 1 /\ Cases[c].err # <<>>
Error == Refused /\ Decide(IF Lexable(X, 1) THEN "refused-valid-text" ELSE "skip-refused", 0)

\* the byte-order mark is outside of lines, columns and offsets
Bom == /\ k = 1 /\ p = 1 /\ ~Refused /\ HasBom
       /\ IF Len(Toks) >= 1 /\ Toks[1].t = <<BOM>> /\ <<Toks[1].l, Toks[1].c, Toks[1].o>> = <<0, 0, 0>>
          THEN k' = 2 /\ p' = 2 /\ UNCHANGED <<c, line, col, off>>
          ELSE Decide("byte-order-mark", 1)

RECURSIVE Count(_, _, _)
Count(s, i, n) == IF i > Len(s) THEN n ELSE Count(s, i + 1, IF s[i] = LF THEN n + 1 ELSE n)
RECURSIVE AfterLast(_, _)
AfterLast(s, i) == IF i = 0 \/ s[i] = LF THEN Len(s) - i ELSE AfterLast(s, i - 1)
AfterLF(s) == AfterLast(s, Len(s))

Consume ==
  /\ k >= 1 /\ ~Refused /\ ~(k = 1 /\ HasBom)
  /\ IF k > Len(Toks)
     THEN IF p # Len(X) + 1 THEN Decide("text-lost-at-end", p)
          ELSE LET badn == {n \in 1..Len(Cases[c].nodes) :
                       LET N == Cases[c].nodes[n] IN
                       <<N.l, N.c, N.o>> # (IF N.f = 0 THEN <<0, 0, 0>>
                                            ELSE <<Toks[N.f].l, Toks[N.f].c, Toks[N.f].o>>)} IN
               IF badn # {} THEN Decide("node-location", CHOOSE n \in badn : \A m \in badn : n <= m)
               ELSE Decide("ok", p)
     ELSE LET T == Toks[k]
              nl == Count(T.t, 1, 0)
              l2 == line + nl
              c2 == IF nl > 0 THEN AfterLF(T.t) ELSE col + Len(T.t)
              o2 == off + Utf8(T.t, 1, Len(T.t))
          IN
          IF T.t = <<>> THEN Decide("empty-token", p)
          ELSE IF ~HasAt(X, p, T.t) THEN Decide("text-differs", p)
          ELSE IF T.l # line THEN Decide("line", p)
          ELSE IF T.c # col THEN Decide("column", p)
          ELSE IF T.o # off THEN Decide("offset", p)
          ELSE IF T.el # l2 \/ T.ec # c2 \/ T.eo # o2 THEN Decide("end-location", p)
          ELSE /\ k' = k + 1 /\ p' = p + Len(T.t)
               /\ line' = l2 /\ col' = c2 /\ off' = o2 /\ UNCHANGED c

Next == Error \/ Bom \/ Consume
=============================================================================
