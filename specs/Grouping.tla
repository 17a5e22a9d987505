------------------------------ MODULE Grouping ------------------------------
(***************************************************************************)
(* C18.  The tree of groups which the parser recorded (field ev, in        *)
(* pre-order) must be exactly the one the group machine predicts.          *)
(***************************************************************************)
EXTENDS GroupMachine

\* the recorded events so far must be the predicted ones
\* (whether a group may be sorted is not part of the recorded tree)
Sorted == {"S", "U"}
Plain(e) == IF SubSeq(e, 1, 1) \in Sorted THEN "P" \o SubSeq(e, 2, Len(e)) ELSE e
Off(k) == k > Len(K.ev) \/ Plain(ev[k]) # K.ev[k]
Differs == Len(ev) > 0 /\ Off(Len(ev))
FirstDiff == CHOOSE k \in 1..Len(ev) : Off(k) /\ \A j \in 1..(k - 1) : ~Off(j)

Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ ev = <<>> /\ st = "start" /\ stk = <<>>
Start == /\ st = "start"
         /\ st' = "run" /\ UNCHANGED <<c, i, ev>> /\ stk' = Frames(Node, {})
Run == /\ st = "run"
       /\ IF K.err = 0 /\ Differs THEN Decide("grouping", FirstDiff)
          ELSE IF Len(stk) > 0 THEN Step
          ELSE IF T.k # ")" \/ i # Len(K.t) THEN Decide("skip-rest", i)
          ELSE IF K.err = 1 THEN Decide("rejected", 0)
          ELSE IF \E k \in 1..Len(ev) : Off(k) THEN Decide("grouping", FirstDiff)
          ELSE IF Len(ev) # Len(K.ev) THEN Decide("grouping", Len(ev) + 1)
          ELSE Decide("ok", i)
Next == Start \/ Run
=============================================================================
