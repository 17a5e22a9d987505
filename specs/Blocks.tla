------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* C17.  The block structure of a listfile: a pushdown automaton over its  *)
(* statements, whose stack holds the blocks that are open.  It predicts,   *)
(* statement by statement, the nodes of the parse tree that the tool       *)
(* builds; the recorded tree (in pre-order) must be exactly that, and the  *)
(* tokens in its leaves must be the listfile.                              *)
(*                                                                         *)
(* Case: x: the text; leaf: concatenation of the tokens of the tree;       *)
(* ev: pre-order events <<code, position>> with codes                      *)
(*   1 body opens, 2 body closes, 3 flow-control opens, 4 closes,          *)
(*   5 statement (with the position of its name), 6 at-word statement      *)
(*   7 end of statement (with the position after its right parenthesis);   *)
(* err: 1 if parsing failed; loc: the line:column pairs named in the       *)
(* error message as a sequence of <<line, column>>; out: 1 if the          *)
(* formatter produced output all the same.                                 *)
(***************************************************************************)
EXTENDS CMakeLang, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, e, stk, st, open
\* c case, i reader position, e next event, stk the open blocks (name and
\* position of the command that opened the current part), st what is due,
\* open: the parentheses that are open
vars == <<c, i, e, stk, st, open>>
K == Cases[c]
X == Cases[c].x
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ st' = "done" /\ UNCHANGED <<c, i, e, stk, open>>

Init == /\ c \in 1..Len(Cases)
        /\ i = 1 /\ e = 1 /\ stk = <<>> /\ open = <<>> /\ st = "start"

Has(n, evs) == n + Len(evs) - 1 <= Len(K.ev) /\ \A k \in 1..Len(evs) : K.ev[n + k - 1] = evs[k]
Ends == [if |-> Cp("endif"), foreach |-> Cp("endforeach"), while |-> Cp("endwhile"),
         function |-> Cp("endfunction"), macro |-> Cp("endmacro")]
Openers == {"if", "foreach", "while", "function", "macro"}
OpenerOf == [if |-> Cp("if"), foreach |-> Cp("foreach"), while |-> Cp("while"),
             function |-> Cp("function"), macro |-> Cp("macro")]
Top == stk[Len(stk)]
Inside == Len(stk) > 0

\* line and column of position p
RECURSIVE LineOf(_, _, _)
LineOf(p, q, n) == LET a == FindIn(X, q, {LF}) IN IF a >= p THEN n ELSE LineOf(p, a + 1, n + 1)
RECURSIVE BackLF(_)
BackLF(p) == IF p < 1 THEN 0 ELSE IF X[p] = LF THEN p ELSE BackLF(p - 1)
ColOf(p) == LET b == BackLF(p - 1) IN IF b = 0 /\ Chr(X, 1) = BOM THEN p - 2 ELSE p - b - 1
Named(p) == \E k \in 1..Len(K.loc) : K.loc[k] = <<LineOf(p, 1, 1), ColOf(p)>>
\* the listfile cannot be accepted, and the problem is at one of these places
Reject(ps) ==
  IF K.err = 0 THEN Decide("accepted-unmatched", CHOOSE p \in ps : TRUE)
  ELSE IF K.out = 1 THEN Decide("formatted-unmatched", CHOOSE p \in ps : TRUE)
  ELSE IF ~\E p \in ps : Named(p) THEN Decide("error-not-located", CHOOSE p \in ps : TRUE)
  ELSE Decide("ok", CHOOSE p \in ps : TRUE)

Start == /\ st = "start"
         /\ IF K.err = 0 /\ SubSeq(X, IF Chr(X, 1) = BOM THEN 2 ELSE 1, Len(X)) # K.leaf THEN Decide("tokens-differ", 1)
            ELSE IF K.err = 0 /\ ~Has(1, <<<<1, 0>>>>) THEN Decide("no-body", 1)
            ELSE st' = "body" /\ e' = 2 /\ UNCHANGED <<c, i, stk, open>>

\* where the command name that ends before position p begins
RECURSIVE BackName(_)
BackName(p) == IF p < 1 \/ X[p] \notin IdChar THEN p + 1 ELSE BackName(p - 1)
NameBefore(p) == {BackName(SkipBack(X, p - 1, Space))}

\* between statements
Body ==
  /\ st = "body"
  /\ LET ev == NextEvent(X, i)
         name == IF ev.k = "u" THEN ToLower(TextOf(X, ev)) ELSE <<>>
         atw == ev.k = "u" /\ ev.e - ev.s > 2 /\ X[ev.s] = AT /\ X[ev.e - 1] = AT
                /\ \A k \in ev.s + 1..ev.e - 2 : X[k] # AT
         opens == {b \in Openers : OpenerOf[b] = name}
         \* K.err = 1: follow the text without a tree
         Ok(evs) == K.err = 1 \/ Has(e, evs)
     IN
     IF ev.k = "bad" THEN Decide("skip-not-cmake", ev.s)
     ELSE IF IsComment(ev) THEN i' = ev.e /\ UNCHANGED <<c, e, stk, st, open>>
     ELSE IF ev.k = "eof" THEN
       IF Inside THEN Reject({Top.p, Top.q})
       ELSE IF K.err = 1 THEN Decide("rejected", ev.s)
       ELSE IF Has(e, <<<<2, 0>>>>) /\ e = Len(K.ev) THEN Decide("ok", ev.s)
       ELSE Decide("tree-does-not-end", ev.s)
     ELSE IF ev.k # "u" THEN Reject({ev.s})
     ELSE IF atw THEN
       IF Ok(<<<<6, ev.s>>>>) THEN i' = ev.e /\ e' = e + 1 /\ UNCHANGED <<c, stk, st, open>>
       ELSE Decide("at-word", ev.s)
     ELSE IF X[ev.s] \in Digit \/ ~\A k \in ev.s..ev.e - 1 : X[k] \in IdChar THEN Reject({ev.s})
     ELSE IF Inside /\ Top.b = "if" /\ name \in {Cp("else"), Cp("elseif")} THEN
       IF Ok(<<<<2, 0>>, <<5, ev.s>>>>)
       THEN /\ e' = e + 2 /\ i' = ev.e /\ st' = "name"
            /\ stk' = [stk EXCEPT ![Len(stk)].q = ev.s, ![Len(stk)].then = "part"] /\ UNCHANGED <<c, open>>
       ELSE Decide("part-of-if", ev.s)
     ELSE IF Inside /\ name = Ends[Top.b] THEN
       IF Ok(<<<<2, 0>>, <<5, ev.s>>>>)
       THEN /\ e' = e + 2 /\ i' = ev.e /\ st' = "name"
            /\ stk' = [stk EXCEPT ![Len(stk)].then = "end"] /\ UNCHANGED <<c, open>>
       ELSE Decide("end-of-block", ev.s)
     ELSE IF opens # {} THEN
       IF Ok(<<<<3, 0>>, <<5, ev.s>>>>)
       THEN /\ e' = e + 2 /\ i' = ev.e /\ st' = "name"
            /\ stk' = Append(stk, [b |-> CHOOSE b \in opens : TRUE, p |-> ev.s, q |-> ev.s, then |-> "part"]) /\ UNCHANGED <<c, open>>
       ELSE Decide("block-opens", ev.s)
     ELSE IF Ok(<<<<5, ev.s>>>>)
       THEN /\ e' = e + 1 /\ i' = ev.e /\ st' = "name"
            /\ stk' = IF Inside THEN [stk EXCEPT ![Len(stk)].then = "stmt"] ELSE stk
            /\ UNCHANGED <<c, open>>
       ELSE Decide("statement", ev.s)

\* how many words follow position p, up to n
RECURSIVE CountWords(_, _)
CountWords(p, n) == LET ev == NextEvent(X, p) IN
               IF n = 0 THEN 0
               ELSE IF IsComment(ev) THEN CountWords(ev.e, n)
               ELSE IF ev.k \in {"u", "q", "b"} THEN 1 + CountWords(ev.e, n - 1) ELSE 0
\* commands that are rejected for what their arguments are, which is not
\* the subject here: a set() or foreach() without the words it must have
Misused(p) == LET name == ToLower(SubSeq(X, p, Skip(X, p, IdChar) - 1)) IN
              \/ name = Cp("set") /\ CountWords(i, 1) < 1
              \/ name = Cp("foreach") /\ CountWords(i, 2) < 2

\* after the name of a command
Name ==
  /\ st = "name"
  /\ LET ev == NextEvent(X, i) IN
     IF ev.k = "(" /\ K.err = 1 THEN st' = "first" /\ open' = <<ev.s>> /\ i' = ev.e /\ UNCHANGED <<c, e, stk>>
     ELSE IF ev.k = "(" THEN st' = "args" /\ open' = <<ev.s>> /\ i' = ev.e /\ UNCHANGED <<c, e, stk>>
     ELSE IF ev.k = "bad" \/ IsComment(ev) THEN Decide("skip-not-cmake", ev.s)
     ELSE Reject({ev.s} \cup NameBefore(i))
First ==
  /\ st = "first"
  /\ IF \E p \in NameBefore(open[1]) : Misused(p) THEN Decide("skip-misused-command", i)
     ELSE st' = "args" /\ UNCHANGED <<c, i, e, stk, open>>
Args ==
  /\ st = "args"
  /\ LET ev == NextEvent(X, i) IN
     IF ev.k = "bad" THEN Decide("skip-not-cmake", ev.s)
     ELSE IF ev.k = "eof" THEN Reject({open[k] : k \in 1..Len(open)} \cup NameBefore(open[1]))
     ELSE IF ev.k = "(" THEN open' = Append(open, ev.s) /\ i' = ev.e /\ UNCHANGED <<c, e, stk, st>>
     ELSE IF ev.k = ")" /\ Len(open) > 1 THEN open' = SubSeq(open, 1, Len(open) - 1) /\ i' = ev.e /\ UNCHANGED <<c, e, stk, st>>
     ELSE IF ev.k # ")" THEN i' = ev.e /\ UNCHANGED <<c, e, stk, st, open>>
     ELSE LET then == IF Inside THEN Top.then ELSE "stmt"
              evs == CASE then = "stmt" -> <<<<7, ev.e>>>>
                       [] then = "part" -> <<<<7, ev.e>>, <<1, 0>>>>
                       [] then = "end"  -> <<<<7, ev.e>>, <<4, 0>>>>
          IN IF K.err = 0 /\ ~Has(e, evs) THEN Decide("end-of-statement", ev.s)
             ELSE /\ e' = e + Len(evs) /\ i' = ev.e /\ st' = "body" /\ open' = <<>>
                  /\ stk' = IF then = "end" THEN SubSeq(stk, 1, Len(stk) - 1) ELSE stk
                  /\ UNCHANGED c
Next == Start \/ Body \/ Name \/ First \/ Args
=============================================================================
