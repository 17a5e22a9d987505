------------------------------ MODULE Regions ------------------------------
(***************************************************************************)
(* C06.  Product of two CMake readers over the listfile (x) and what the   *)
(* tool made of it (y), with a mode.  In mode "active" they advance one    *)
(* code element per step and the elements must agree (comments are passed  *)
(* over, formatting switches are not).  An off switch in both takes them   *)
(* to mode "off": there x is read up to the on switch, or to its end, and  *)
(* y must carry the very same text between its switches.                   *)
(*                                                                         *)
(* A case has two listfiles x, x2 that differ only inside the regions.     *)
(* They are read one after the other (variable run), and the parts of y    *)
(* outside the regions must come out the same.                             *)
(* err, err2: failures of the tool.                                        *)
(***************************************************************************)
EXTENDS CMakeLang, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Verdict(c, clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))

VARIABLES c, run, i, j,
          mode,  \* "active", "off", "done"
          o,     \* where the current outside part of y starts
          outs   \* the outside parts of y of each run
vars == <<c, run, i, j, mode, o, outs>>

X == IF run = 1 THEN Cases[c].x ELSE Cases[c].x2
Y == IF run = 1 THEN Cases[c].y ELSE Cases[c].y2
Err == IF run = 1 THEN Cases[c].err ELSE Cases[c].err2

\* a comment that switches formatting: "off", "on" or "no"
SwitchOf(t, ev) ==
  IF ev.k # "lc" THEN "no"
  ELSE LET a == Skip(t, ev.s + 1, Space)
           b == IF HasAt(t, a, TxtFormat) THEN a + Len(TxtFormat)
                ELSE IF HasAt(t, a, TxtCmf) THEN a + Len(TxtCmf) ELSE 0
       IN IF b = 0 \/ b > ev.e THEN "no"
          ELSE IF HasAt(t, b, TxtOff) THEN "off"
          ELSE IF HasAt(t, b, TxtOn) THEN "on" ELSE "no"

SwitchEnd(t, p) == FindIn(t, p, {CR, LF})

\* the next code element or switch
RECURSIVE Find(_, _)
Find(t, p) ==
  LET ev == NextEvent(t, p) s == SwitchOf(t, ev) IN
  IF IsComment(ev) /\ s = "no" THEN Find(t, ev.e)
  ELSE [k |-> IF s = "no" THEN ev.k ELSE s, s |-> ev.s, e |-> ev.e]
\* the next on switch (or the end, or an error)
RECURSIVE FindOn(_, _)
FindOn(t, p) ==
  LET ev == NextEvent(t, p) IN
  IF ev.k \in {"eof", "bad"} THEN ev
  ELSE IF SwitchOf(t, ev) = "on" THEN Ev("on", ev.s, ev.e) ELSE FindOn(t, ev.e)

RECURSIVE AnyBad(_, _)
AnyBad(t, p) == LET ev == NextEvent(t, p) IN
                IF ev.k = "bad" THEN TRUE ELSE IF ev.k = "eof" THEN FALSE ELSE AnyBad(t, ev.e)

Init == /\ c \in 1..Len(Cases)
        /\ run = 1 /\ i = 1 /\ j = 1 /\ mode = "active" /\ o = 1 /\ outs = <<<<>>, <<>>>>

Stop(clause, pos) == Verdict(c, clause, pos) /\ mode' = "done" /\ UNCHANGED <<c, run, i, j, o, outs>>

\* a part of y outside the regions ends before position e
PartEnds(e) == outs' = [outs EXCEPT ![run] = Append(@, SubSeq(Y, o, e - 1))]

FileEnds ==
  IF run = 1 THEN /\ run' = 2 /\ i' = 1 /\ j' = 1 /\ o' = 1 /\ mode' = "active" /\ UNCHANGED c
  ELSE /\ Verdict(c, IF outs'[1] = outs'[2] THEN "ok" ELSE "outside-depends-on-region", Len(Y))
       /\ mode' = "done" /\ UNCHANGED <<c, run, i, j, o>>

SameElem(a, b) == LET s == TextOf(X, a) r == TextOf(Y, b) IN
                  SameText(s, r) \/ (a.k = "u" /\ SameNoCase(s, r))

Active ==
  /\ mode = "active"
  /\ IF Err # <<>> THEN Stop(IF AnyBad(X, 1) THEN "skip-not-cmake" ELSE "error", 0) ELSE
     LET a == Find(X, i) b == Find(Y, j) IN
     IF a.k = "bad" THEN Stop("skip-not-cmake", a.s)
     ELSE IF b.k = "bad" THEN Stop("output-not-cmake", b.s)
     ELSE IF a.k # b.k THEN Stop("outside-" \o a.k \o "-became-" \o b.k, b.s)
     ELSE IF a.k = "eof" THEN PartEnds(Len(Y) + 1) /\ FileEnds
     ELSE IF a.k \in {"off", "on"} THEN
       /\ i' = SwitchEnd(X, a.s)
       /\ j' = SwitchEnd(Y, b.s)
       /\ mode' = IF a.k = "off" THEN "off" ELSE "active"
       /\ IF a.k = "off" THEN PartEnds(b.s) ELSE UNCHANGED outs
       /\ UNCHANGED <<c, run, o>>
     ELSE IF ~SameElem(a, b) THEN Stop("outside-element-differs", b.s)
     ELSE i' = a.e /\ j' = b.e /\ UNCHANGED <<c, run, o, mode, outs>>

\* i and j are at the ends of the lines of the off switches
Region ==
  /\ mode = "off"
  /\ LET on == FindOn(X, i)
         last == IF on.k = "on" THEN on.s - 1 ELSE Len(X)
         n == last - i + 1      \* length of the region (it starts at the line ending)
     IN
     IF on.k = "bad" THEN Stop("skip-not-cmake", on.s)
     ELSE IF j + n - 1 > Len(Y) \/ SubSeq(X, i, last) # SubSeq(Y, j, j + n - 1) THEN Stop("region-differs", j)
     ELSE IF on.k = "on" THEN
       LET b == NextEvent(Y, j + n) IN
       IF b.s # j + n \/ SwitchOf(Y, b) # "on" THEN Stop("no-on-switch", j + n)
       ELSE /\ i' = SwitchEnd(X, on.s) /\ j' = SwitchEnd(Y, b.s) /\ mode' = "active" /\ o' = b.s
            /\ UNCHANGED <<c, run, outs>>
     ELSE \* never switched on: the rest of the file is the region
          IF j + n - 1 # Len(Y) THEN Stop("text-after-region", j + n)
          ELSE /\ o' = 1 /\ UNCHANGED outs
               /\ IF run = 1 THEN run' = 2 /\ i' = 1 /\ j' = 1 /\ mode' = "active" /\ UNCHANGED c
                  ELSE /\ Verdict(c, IF outs[1] = outs[2] THEN "ok" ELSE "outside-depends-on-region", 0)
                       /\ mode' = "done" /\ UNCHANGED <<c, run, i, j>>

Next == (Active \/ Region)
=============================================================================
