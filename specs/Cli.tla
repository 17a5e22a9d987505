--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* C14.  The command-line driver: a sequential machine over the input      *)
(* files.  What each file is by itself (its text, its configuration and    *)
(* what formatting it alone yields) is given; the machine computes what a  *)
(* run over all of them must write, report and return.                     *)
(*                                                                         *)
(* Case: mode: "stdout" (stdout, -o -, stdin), "outfile", "inplace",       *)
(* "check"; files: in the order given: [n, old, kind, new, dis] with kind  *)
(* "ok", "invalid" (a valid layout is required and there is none) or       *)
(* "error"; fin: what the run left, files [n, d]; start: what was there;   *)
(* out: bytes written to stdout; named: the files that check messages      *)
(* name, failed: files for which failing to format is reported; rc.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, out, disk, unformatted, failed, rc, st
vars == <<c, i, out, disk, unformatted, failed, rc, st>>
K == Cases[c]
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))

Init == /\ c \in 1..Len(Cases)
        /\ i = 1 /\ out = <<>> /\ unformatted = <<>> /\ failed = <<>> /\ rc = 0
        /\ disk = [n \in {K.start[k].n : k \in 1..Len(K.start)} |->
                     (K.start[CHOOSE k \in 1..Len(K.start) : K.start[k].n = n]).d]
        /\ st = "run"
Write(n, d) == [x \in DOMAIN disk \cup {n} |-> IF x = n THEN d ELSE disk[x]]
\* the text of a file when its turn comes (it may have been given before)
Now(f) == IF K.mode = "inplace" /\ f.n \in DOMAIN disk THEN disk[f.n] ELSE f.old

File ==
  /\ st = "run" /\ i <= Len(K.files)
  /\ LET f == K.files[i] IN
     IF f.dis = 1 THEN i' = i + 1 /\ UNCHANGED <<out, disk, unformatted, failed, rc, st>>
     ELSE IF f.kind = "error" THEN
       rc' = 1 /\ st' = "stop" /\ UNCHANGED <<i, out, disk, unformatted, failed>>
     ELSE IF f.kind = "invalid" THEN
       rc' = 1 /\ i' = i + 1 /\ failed' = Append(failed, f.n) /\ UNCHANGED <<out, disk, unformatted, st>>
     ELSE CASE K.mode = "check" ->
                 /\ i' = i + 1
                 /\ IF f.old = f.new THEN UNCHANGED <<rc, unformatted>>
                    ELSE rc' = 1 /\ unformatted' = Append(unformatted, f.n)
                 /\ UNCHANGED <<out, disk, failed, st>>
            [] K.mode = "inplace" -> i' = i + 1 /\ disk' = Write(f.n, f.new) /\ UNCHANGED <<out, unformatted, failed, rc, st>>
            [] K.mode = "outfile" -> i' = i + 1 /\ disk' = Write(K.target, f.new) /\ UNCHANGED <<out, unformatted, failed, rc, st>>
            [] OTHER -> i' = i + 1 /\ out' = out \o f.new /\ UNCHANGED <<disk, unformatted, failed, rc, st>>
  /\ UNCHANGED c
Fin == [n \in {K.fin[k].n : k \in 1..Len(K.fin)} |-> (K.fin[CHOOSE k \in 1..Len(K.fin) : K.fin[k].n = n]).d]
Finish ==
  /\ st = "stop" \/ i > Len(K.files)
  /\ st # "done"
  /\ Verdict(IF K.rc < 0 THEN "killed"
             ELSE IF rc = 0 /\ K.rc # 0 THEN "exit-nonzero"
             ELSE IF rc # 0 /\ K.rc = 0 THEN "exit-zero"
             ELSE IF K.out # out THEN "stdout"
             ELSE IF DOMAIN Fin # DOMAIN disk THEN "files-created-or-lost"
             ELSE IF Fin # disk THEN "file-contents"
             ELSE IF K.named # unformatted THEN "names-unformatted"
             ELSE IF K.failed # failed THEN "names-failed"
             ELSE "ok", i)
  /\ st' = "done" /\ UNCHANGED <<c, i, out, disk, unformatted, failed, rc>>
Next == File \/ Finish
=============================================================================
