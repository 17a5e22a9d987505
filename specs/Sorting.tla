------------------------------ MODULE Sorting -------------------------------
(***************************************************************************)
(* C05.  The group machine tells which lists may be sorted.  From that     *)
(* follows the only permitted order of the arguments: within a sortable    *)
(* list the arguments in the stable order of their lower-case spelling,    *)
(* each with the flags and parentheses that follow it, everything else     *)
(* where it was.  The output is then read argument by argument.            *)
(*                                                                         *)
(* Fields besides those of the group machine: t[k].s spelling, t[k].cm the *)
(* comments before token k; y the output; skip number of commands before;  *)
(* on 1 if enable_sort and autosort are set.                               *)
(***************************************************************************)
EXTENDS GroupMachine
VARIABLES p,     \* reader position in the output
          q,     \* number of arguments matched
          order, \* the permitted order (token indices)
          last,  \* for each token the last one of its sorted list
          rest   \* comments of the source still to come at the end of the list
svars == <<vars, p, q, order, last, rest>>
Y == K.y
N == Len(K.t)

---------------------------------------------------------------------------
(* The lists, from the recorded events: for each token the number of the   *)
(* outermost sortable list around it (0: none), and whether it is an       *)
(* argument of that list (or something that follows one).                  *)
RECURSIVE Lists(_, _, _, _, _)
\* k event, depth, at: depth of the open sortable list (0 none), id, out
Lists(k, depth, at, id, out) ==
  IF k > Len(ev) THEN out
  ELSE IF ev[k] \in {"A", "P", "K", "G", "U"} THEN Lists(k + 1, depth + 1, at, id, out)
  ELSE IF ev[k] = "S" THEN Lists(k + 1, depth + 1, IF at = 0 THEN depth + 1 ELSE at, IF at = 0 THEN id + 1 ELSE id, out)
  ELSE IF ev[k] = ">" THEN Lists(k + 1, depth - 1, IF at = depth THEN 0 ELSE at, id, out)
  ELSE Lists(k + 1, depth, at, id,
             Append(out, [g |-> IF at = 0 THEN 0 ELSE id, h |-> at # 0 /\ at = depth /\ ev[k] = "a"]))

RECURSIVE Less(_, _, _)
Less(a, b, k) == IF k > Len(b) THEN FALSE ELSE IF k > Len(a) THEN TRUE
                 ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE Less(a, b, k + 1)
\* the tokens which come with the argument k of the list
RECURSIVE Follow(_, _)
Follow(ls, k) == IF k < Len(ls) /\ ls[k + 1].g = ls[k].g /\ ~ls[k + 1].h THEN <<k>> \o Follow(ls, k + 1) ELSE <<k>>
\* the order of the list that starts with token a and ends with token b
OrderOf(ls, a, b) ==
  LET heads == {k \in a..b : ls[k].h}
      low == [k \in heads |-> ToLower(K.t[k].s)]
      Before(j, k) == Less(low[j], low[k], 1) \/ (low[j] = low[k] /\ j < k)
      rank == [k \in heads |-> 1 + Cardinality({j \in heads : Before(j, k)})]
      nth(n) == CHOOSE k \in heads : rank[k] = n
      RECURSIVE Out(_)
      Out(n) == IF n > Cardinality(heads) THEN <<>> ELSE Follow(ls, nth(n)) \o Out(n + 1)
      lead == IF ls[a].h THEN <<>> ELSE Follow(ls, a)
  IN lead \o Out(1)
RECURSIVE EndOf(_, _)
EndOf(ls, k) == IF k < Len(ls) /\ ls[k + 1].g = ls[k].g THEN EndOf(ls, k + 1) ELSE k
RECURSIVE Order(_, _)
Order(ls, k) == IF k > Len(ls) THEN <<>>
                ELSE IF ls[k].g = 0 \/ K.on = 0 THEN <<k>> \o Order(ls, k + 1)
                ELSE LET b == EndOf(ls, k) IN OrderOf(ls, k, b) \o Order(ls, b + 1)

---------------------------------------------------------------------------
\* the comments at pos in the output, and the element after them
RECURSIVE Gap(_, _)
Gap(pos, acc) == LET v == NextEvent(Y, pos) IN
                 IF IsComment(v) THEN Gap(v.e, Append(acc, TextOf(Y, v))) ELSE [ev |-> v, cm |-> acc]
RECURSIVE After(_, _, _)
After(pos, n, depth) ==
  IF n = 0 THEN pos
  ELSE LET v == Gap(pos, <<>>).ev IN
       IF v.k \in {"eof", "bad"} THEN v.e
       ELSE IF v.k = "(" THEN After(v.e, n, depth + 1)
       ELSE IF v.k = ")" THEN After(v.e, IF depth = 1 THEN n - 1 ELSE n, depth - 1)
       ELSE After(v.e, n, depth)
\* the comments that follow token k in the source (0: the opening parenthesis)
Own(k) == K.t[k + 1].cm
Lead(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* The comments cm after the n-th argument of the output.  They are those
\* which followed it in the source; only after the last argument of a list
\* some may belong to what comes after the list, and stay there.
CommentsOk(n, cm) ==
  LET k == order[n]
      b == last[k]
  IN IF n = 0 THEN cm = Own(0)
     ELSE IF k = b /\ n # b THEN Lead(cm, Own(b))
     ELSE IF n = b /\ k # b THEN cm = Own(k) \o rest
     ELSE cm = Own(k)
RestAfter(n, cm) == IF n > 0 /\ order[n] = last[order[n]] /\ n # order[n]
                    THEN SubSeq(Own(order[n]), Len(cm) + 1, Len(Own(order[n]))) ELSE rest

Same == UNCHANGED <<p, q, order, last, rest>>
Say(clause, pos) == Decide(clause, pos) /\ Same
SInit == /\ c \in 1..Len(Cases) /\ i = 1 /\ ev = <<>> /\ st = "start" /\ stk = <<>>
         /\ p = 1 /\ q = 0 /\ order = <<>> /\ last = <<>> /\ rest = <<>>
Start == /\ st = "start" /\ st' = "run" /\ stk' = Frames(Node, {}) /\ UNCHANGED <<c, i, ev>> /\ Same
Run == /\ st = "run"
       /\ IF Len(stk) > 0 THEN Step /\ Same
          ELSE IF T.k # ")" \/ i # N THEN Say("skip-rest", i)
          ELSE IF K.err = 1 THEN Say("rejected", 0)
          ELSE IF \E k \in 1..Len(ev) : ev[k] = "U" THEN Say("skip-annotation", 0)
          ELSE /\ LET ls == Lists(1, 0, 0, 0, <<>>) IN
                  /\ order' = Append(Order(ls, 1), N)
                  /\ last' = SubSeq([k \in 1..N |-> IF k = N \/ K.on = 0 \/ ls[k].g = 0 THEN k ELSE EndOf(ls, k)], 1, N)
               /\ rest' = <<>>
               /\ LET a == After(1, K.skip, 0)
                      name == Gap(a, <<>>).ev
                      par == NextEvent(Y, name.e)
                  IN p' = par.e
               /\ st' = "args" /\ q' = 0 /\ UNCHANGED <<c, i, ev, stk>>
\* one argument per step
Args == /\ st = "args"
        /\ LET g == Gap(p, <<>>) IN
           IF g.ev.k \in {"eof", "bad"} THEN Say("unreadable", p)
           ELSE IF TextOf(Y, g.ev) # K.t[order[q + 1]].s
             THEN Say(IF order[q + 1] # q + 1 \/ \E k \in 1..N : K.t[k].s = TextOf(Y, g.ev) THEN "order" ELSE "argument", q + 1)
           ELSE IF ~CommentsOk(q, g.cm) THEN Say("comment", q)
           ELSE IF q + 1 = N THEN Say("ok", 0)
           ELSE /\ q' = q + 1 /\ p' = g.ev.e /\ rest' = RestAfter(q, g.cm)
                /\ UNCHANGED <<c, i, ev, stk, st, order, last>>
SNext == Start \/ Run \/ Args
=============================================================================
