------------------------------- MODULE LintArgs -------------------------------
(***************************************************************************)
(* C26.  The messages about its arguments that a statement deserves.  They *)
(* follow from how the group machine groups the arguments: a group that is *)
(* closed before it has as many arguments as its command requires (E1120), *)
(* arguments where none are expected (E1121), a keyword that is given      *)
(* again to the same command (E1122), a keyword that must be given and is  *)
(* not (E1125, C0113), a word that does not select a form of the command,  *)
(* or that may hide it (E1126, C0114), and a form that is          *)
(* deprecated (W0104).  What the linter reported must be exactly that.     *)
(*                                                                         *)
(* Case: as for GroupMachine; tokens have ln, col; after: the place after  *)
(* the opening parenthesis; msgs: what was reported [id, ln, col, m].      *)
(***************************************************************************)
EXTENDS GroupMachine

VARIABLES sts, kws, exp
all == <<c, i, ev, stk, st, sts, kws, exp>>
\* sts: the first token of each open group (0: none yet); kws: the keywords
\* it had so far; exp: the messages so far

Text(id, arg) ==
  CASE id = "E1120" -> "Missing required positional argument"
    [] id = "E1121" -> "Too many positional arguments"
    [] id = "E1122" -> "Duplicate keyword argument " \o arg
    [] id = "E1125" -> "Missing required keyword argument " \o arg
    [] id = "E1126" -> "Invalid form descriminator"
    [] id = "C0113" -> "Missing " \o arg \o " in statement which allows it"
    [] id = "C0114" -> "Form descriminator hidden behind variable dereference"
    [] OTHER -> "Use of deprecated command build_command(<cachevariable> <makecommand>)"
MsgAt(id, ln, col, arg) == <<[id |-> id, ln |-> ln, col |-> col, m |-> Text(id, arg)]>>
Msg(id, k, arg) == MsgAt(id, K.t[k].ln, K.t[k].col, arg)

Repeatable == {"AND", "OR", "COMMAND", "PATTERN", "REGEX"}
Dispatched == {"file", "list", "add_custom_command", "cmake_policy"}
First == K.t[1]
Forms == {Node.map[k].u : k \in 1..Len(Node.map)}
FormMsgs ==
  IF K.cmd \in Dispatched
    THEN IF First.k = ")" THEN MsgAt("E1120", K.after[1], K.after[2], "")
         ELSE IF First.d = 1 THEN Msg("C0114", 1, "")
         ELSE IF First.k = "w" /\ (First.u \in Forms \/ (K.cmd = "add_custom_command" /\ First.n = "OUTPUT")) THEN <<>>
         ELSE Msg("E1126", 1, "")
  ELSE IF K.cmd = "build_command" /\ K.t[1].k # ")"
    THEN LET d == TokAt(2) IN
         IF d.k = ")" \/ d.u \in Forms THEN <<>> ELSE MsgAt("W0104", K.after[1], K.after[2], "")
  ELSE <<>>

RequiredMsgs ==
  LET need(id, w) == IF w \in kws[1] THEN <<>> ELSE Msg(id, 1, w)
  IN IF K.cmd = "add_custom_command" THEN need("C0113", "COMMENT") \o need("E1125", "COMMAND")
     ELSE IF K.cmd = "add_custom_target" THEN need("C0113", "COMMENT")
     ELSE <<>>

\* set(... CACHE <type> <docstring> [FORCE])
CacheMsgs(s) ==
  LET n == i - s - 1
      more == IF n >= 3 /\ K.t[s + 3].u = "FORCE" THEN s + 4 ELSE s + 3
  IN IF n < 2 THEN Msg("E1120", i, "")
     ELSE IF more < i THEN Msg("E1121", more, "") ELSE <<>>

\* the group on top is closed
CloseMsgs ==
  LET s == sts[Len(stk)] IN
  CASE Top.t \in {"parg", "tupleparg"} /\ s > 0 -> IF i - s < Top.mn THEN Msg("E1120", s, "") ELSE <<>>
    [] Top.t = "parg" /\ s = 0 /\ Len(stk) > 1 /\ stk[Len(stk) - 1].t = "file_write" -> Msg("E1120", 1, "")
    [] Top.t = "kw" /\ Len(stk) > 1 /\ stk[Len(stk) - 1].t = "set" -> CacheMsgs(s)
    [] Len(stk) = 1 /\ K.t[1].k # ")" -> RequiredMsgs
    [] OTHER -> <<>>
\* the groups that are opened by the argument that is read, and the keyword
OpenMsgs ==
  LET new == {k \in 1..Len(stk') : stk'[k].o /\ (k > Len(sts) \/ sts[k] = 0)}
      su == {k \in new : "su" \in DOMAIN stk'[k]}
  IN (IF su # {} THEN Msg("E1121", i, "") ELSE <<>>)
     \o (IF ev'[Len(ev')] = "k" /\ T.u \in kws[Len(stk)] /\ T.u \notin Repeatable THEN Msg("E1122", i, T.u) ELSE <<>>)

Track ==
  LET popped == Len(stk') < Len(stk)
      eaten == i' > i
      key == eaten /\ ev'[Len(ev')] = "k"
      deep == Len(stk')
  IN /\ exp' = exp \o (IF popped THEN CloseMsgs ELSE IF eaten THEN OpenMsgs ELSE <<>>)
     /\ sts' = SubSeq([k \in 1..deep |-> IF k <= Len(sts) /\ sts[k] > 0 THEN sts[k]
                                          ELSE IF eaten /\ stk'[k].o THEN i ELSE 0], 1, deep)
     /\ kws' = SubSeq([k \in 1..deep |-> IF k > Len(stk) THEN {}
                                          ELSE IF key /\ k = Len(stk) THEN kws[k] \cup {T.u} ELSE kws[k]], 1, deep)

Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ ev = <<>> /\ st = "start" /\ stk = <<>>
        /\ sts = <<>> /\ kws = <<>> /\ exp = <<>>
Start == /\ st = "start"
         /\ st' = "run" /\ UNCHANGED <<c, i, ev>> /\ stk' = Frames(Node, {})
         /\ sts' = SubSeq([k \in 1..Len(stk') |-> 0], 1, Len(stk'))
         /\ kws' = SubSeq([k \in 1..Len(stk') |-> {}], 1, Len(stk'))
         /\ exp' = FormMsgs

\* What is not specified: an empty list of sources after the flags of a
\* library, and further E1120 for a group that holds nothing but a comment
\* (reported at the first argument, or one that a comment follows)
HasComment == \E k \in 1..Len(K.t) : K.t[k].m = 1
Here(m) == {k \in 1..Len(K.t) : K.t[k].ln = m.ln /\ K.t[k].col = m.col}
Loose(m) == m.id = "E1120" /\ HasComment /\ (Here(m) = {} \/ \E k \in Here(m) : k = 1 \/ TokAt(k + 1).m = 1)
NoSources == K.cmd = "add_library" /\ Len(K.t) >= 2 /\ K.t[Len(K.t) - 1].n = "EXCLUDE_FROM_ALL" /\ Len(K.t) <= 4
NoForm == K.cmd \in {"cmake_policy", "add_custom_target"} /\ First.k = ")"
Copies(m, q) == Cardinality({k \in 1..Len(q) : q[k] = m})
Conclude ==
  LET missing == {k \in 1..Len(exp) : Copies(exp[k], K.msgs) < Copies(exp[k], exp)}
      surplus == {k \in 1..Len(K.msgs) : ~Loose(K.msgs[k]) /\ Copies(K.msgs[k], exp) < Copies(K.msgs[k], K.msgs)}
  IN IF K.err = 1 THEN Decide("failed", 0)
     ELSE IF NoSources \/ NoForm THEN Decide("skip-empty", i)
     ELSE IF missing # {} THEN LET k == CHOOSE k \in missing : TRUE IN Decide("missing-" \o exp[k].id, exp[k].col)
     ELSE IF surplus # {} THEN LET k == CHOOSE k \in surplus : TRUE IN Decide("surplus-" \o K.msgs[k].id, K.msgs[k].col)
     ELSE Decide("ok", Len(exp))

Run == /\ st = "run"
       /\ IF Len(stk) > 0 /\ i <= Len(K.t) THEN Step /\ Track
          ELSE /\ IF i # Len(K.t) \/ T.k # ")" THEN Decide("skip-rest", i) ELSE Conclude
               /\ UNCHANGED <<sts, kws, exp>>
Next == Start \/ Run
=============================================================================
