------------------------------- MODULE Markup --------------------------------
(***************************************************************************)
(* C12.  Reads the listfile and collects its comments: lines that belong   *)
(* together are one comment.  Each comment is parsed into the items of the *)
(* documented markup (a line-by-line state machine) and laid out for the   *)
(* column where the output has it; the output must carry exactly these     *)
(* lines, comment by comment.                                              *)
(*                                                                         *)
(* Case: x listfile, y what formatting gave, err; o options (MarkupLines). *)
(***************************************************************************)
EXTENDS MarkupLines

\* reading the listfile: p position, d depth, prev kind of the previous
\* element, name of the command; coms: the comments found.
\* reading the output: q position, i comment, n lines of it read, want its
\* lines, at where its last line started
VARIABLES st, p, d, prev, name, coms, q, i, n, want, at
vars == <<c, st, p, d, prev, name, coms, q, i, n, want, at>>
X == Cases[c].x
Y == Cases[c].y
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ st' = "done" /\ UNCHANGED <<c, p, d, prev, name, coms, q, i, n, want, at>>

\* -------------------------------------------------------------- transitions
Init == /\ c \in 1..Len(Cases) /\ st = "read" /\ p = 1 /\ d = 0 /\ prev = "start" /\ name = <<>> /\ coms = <<>>
        /\ q = 1 /\ i = 0 /\ n = 0 /\ want = <<>> /\ at = 0

\* commands whose arguments have no grammar
FreeCommand == {Cp("foo"), Cp("my_func")}
IsTag(r) == LET a == Skip(r, 2, Blank) IN HasAt(r, a, TxtFormat) \/ HasAt(r, a, TxtCmf) \/ HasAt(r, a, Cp("cmake-format:")) \/ HasAt(r, a, Cp("cmf:"))
Explicit(r) == StartsWith(r, O.et)

\* a line comment: it goes on with the last comment or starts one
Comment(e) ==
  LET r == TextOf(X, e)
      last == coms[Len(coms)]
      near == coms # <<>> /\ prev = "lc" /\ Breaks(X, last.e, e.s) = 1 /\ last.col = Column(X, e.s)
      x == Explicit(r)
      one == [ls |-> <<r>>, first |-> prev = "start", expl |-> x, e |-> e.e, col |-> Column(X, e.s)]
      joined == [coms EXCEPT ![Len(coms)] = [@ EXCEPT !.ls = Append(@, r), !.e = e.e]]
  IN IF IsTag(r) THEN Decide("skip-tag", e.s)
     ELSE IF \E k \in 1..Len(r) : r[k] \in {TAB, VT, FF} THEN Decide("skip-tab", e.s)
     ELSE IF d > 1 \/ (d = 1 /\ name \notin FreeCommand) THEN Decide("skip-grammar", e.s)
     ELSE IF prev = "name" THEN Decide("skip-before-paren", e.s)
     ELSE IF prev = "lc" /\ last.expl # x THEN Decide("skip-mixed", e.s)
     ELSE IF x /\ prev \notin {"arg", "end", "lc"} THEN Decide("skip-explicit", e.s)
     ELSE coms' = (IF near \/ (prev = "lc" /\ x) THEN joined ELSE Append(coms, one))
          /\ prev' = "lc" /\ p' = e.e /\ UNCHANGED <<c, st, d, name, q, i, n, want, at>>

Read ==
  /\ st = "read"
  /\ LET e == NextEvent(X, p)
         go(dd, pp, nn) == d' = dd /\ prev' = pp /\ name' = nn /\ p' = e.e /\ UNCHANGED <<c, st, coms, q, i, n, want, at>>
     IN CASE e.k = "eof" -> IF d > 0 THEN Decide("skip-not-cmake", p) ELSE IF Cases[c].err # <<>> THEN Decide("failed", p)
                            ELSE st' = "write" /\ UNCHANGED <<c, p, d, prev, name, coms, q, i, n, want, at>>
          [] e.k = "bad" -> Decide("skip-not-cmake", p)
          [] e.k = "lc" -> Comment(e)
          [] e.k = "bc" -> IF prev = "start" THEN go(d, "bc", name) ELSE go(d, "bc", name)
          [] e.k = "(" -> IF d > 0 THEN Decide("skip-paren", p) ELSE go(1, "(", name)
          [] e.k = ")" -> go(d - 1, "end", name)
          [] OTHER -> IF d = 0 THEN go(0, "name", ToLower(TextOf(X, e))) ELSE go(d, "arg", name)

Write ==
  /\ st = "write"
  /\ LET e == NextEvent(Y, q)
         new == i = 0 \/ n = Len(want)
         w == IF new THEN (IF i < Len(coms) THEN Lines_(coms[i + 1], Column(Y, e.s)) ELSE <<>>) ELSE want
         k == IF new THEN 1 ELSE n + 1
     IN CASE e.k = "eof" -> Decide(IF i < Len(coms) \/ n < Len(want) THEN "comment-missing" ELSE "ok", q)
          [] e.k = "bad" -> Decide("output-not-cmake", q)
          [] e.k = "lc" ->
               IF new /\ i = Len(coms) THEN Decide("comment-added", e.s)
               ELSE IF ~new /\ (Column(Y, e.s) # Column(Y, at) \/ Breaks(Y, at, e.s) # 1) THEN Decide("lines-not-together", e.s)
               ELSE IF TextOf(Y, e) # w[k] THEN Decide("line-differs", e.s)
               ELSE /\ q' = e.e /\ i' = (IF new THEN i + 1 ELSE i) /\ n' = k /\ want' = w /\ at' = e.s
                    /\ UNCHANGED <<c, st, p, d, prev, name, coms>>
          [] OTHER -> IF ~new THEN Decide("comment-cut-short", e.s)
                      ELSE q' = e.e /\ UNCHANGED <<c, st, p, d, prev, name, coms, i, n, want, at>>

Next == Read \/ Write
=============================================================================
