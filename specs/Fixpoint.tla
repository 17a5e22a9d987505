------------------------------ MODULE Fixpoint ------------------------------
(***************************************************************************)
(* C07.  The tool as a state machine over the content of a file: running   *)
(* it replaces the content.  A recorded history is x (as written by the    *)
(* user), then the contents after 1, 2, ... runs with one configuration.   *)
(* Invariant: the content changes in the first run at most.                *)
(* Case: h: the contents after each run; err.                              *)
(***************************************************************************)
EXTENDS Text, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, content
vars == <<c, k, content>>
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ k' = -1 /\ UNCHANGED <<c, content>>
RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, i) == IF Chr(a, i) = Chr(b, i) /\ i <= Len(a) THEN FirstDiff(a, b, i + 1) ELSE i

Init == c \in 1..Len(Cases) /\ k = 0 /\ content = <<>>
Run1 == k = 0 /\ IF Cases[c].err # <<>> THEN Decide("error", 0)
                 ELSE k' = 1 /\ content' = Cases[c].h[1] /\ UNCHANGED c
Again == k >= 1 /\ IF k = Len(Cases[c].h) THEN Decide("ok", k)
                   ELSE IF Cases[c].h[k + 1] # content THEN Decide("changed-in-run-" \o ToString(k + 1), FirstDiff(Cases[c].h[k + 1], content, 1))
                   ELSE k' = k + 1 /\ UNCHANGED <<c, content>>
Next == Run1 \/ Again
=============================================================================
