------------------------------- MODULE InPlace -------------------------------
(***************************************************************************)
(* C13.  A file system (directory entries, inodes with data and mode, open *)
(* file descriptors with offsets) driven by the file system calls that the *)
(* tool was seen to make, faults included.  Every prefix of the sequence   *)
(* of calls is the state that a crash at that point leaves behind, so the  *)
(* safety of each input file is required in every state:                   *)
(*   - the file exists, and holds all of its old or all of its new data;   *)
(*   - with the new data it has the permission bits it had;                *)
(*   - a file that is not to be rewritten is not touched at all.           *)
(*                                                                         *)
(* Case: init: files at the start [n, d, m]; files: input files            *)
(* [n, old, new, m, cls] with cls "rewrite" or "leave"; ops: the calls;    *)
(* fin: files at the end; rc: exit status; fired: faults that happened.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, n, dir, ino, fds, st
vars == <<c, n, dir, ino, fds, st>>
K == Cases[c]
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ st' = "done" /\ UNCHANGED <<c, n, dir, ino, fds>>

\* finite maps as sets of pairs would be slow: use functions with small domains
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Set(i, d) == [ino EXCEPT ![i].d = d]
Overwrite(data, off, new) ==
  LET pad == IF Len(data) < off THEN data \o [k \in 1..off - Len(data) |-> 0] ELSE data
  IN SubSeq(pad, 1, off) \o new \o SubSeq(pad, off + Len(new) + 1, Len(pad))

Init == /\ c \in 1..Len(Cases)
        /\ n = 1
        /\ dir = [x \in {K.init[k].n : k \in 1..Len(K.init)} |-> CHOOSE k \in 1..Len(K.init) : K.init[k].n = x]
        /\ ino = [k \in 1..Len(K.init) |-> [d |-> K.init[k].d, m |-> K.init[k].m]]
        /\ fds = <<>>
        /\ st = "run"

Inode(f) == dir[f.n]
Problem(f, data, mode, same) ==
  IF f.cls = "leave" THEN IF data = f.old /\ mode = f.m /\ same THEN "" ELSE "touched"
  ELSE IF data # f.old /\ data # f.new THEN "damaged"
  ELSE IF data = f.new /\ mode # f.m THEN "mode-changed"
  ELSE ""
InState(f) == IF f.n \notin DOMAIN dir THEN "lost"
              ELSE Problem(f, ino[dir[f.n]].d, ino[dir[f.n]].m, K.init[dir[f.n]].n = f.n)
Files == {K.files[k] : k \in 1..Len(K.files)}
Bad == {f \in Files : InState(f) # ""}

Bit(x, b) == (x \div b) % 2 = 1
Effect(o) ==
  IF o.r < 0 THEN UNCHANGED <<dir, ino, fds>>
  ELSE CASE o.op = "open" ->
         LET new == o.a \notin DOMAIN dir
             i == IF new THEN Len(ino) + 1 ELSE dir[o.a]
             ino1 == IF new THEN Append(ino, [d |-> <<>>, m |-> o.y]) ELSE ino
         IN /\ dir' = IF new THEN With(dir, o.a, i) ELSE dir
            /\ ino' = IF Bit(o.x, 4) THEN [ino1 EXCEPT ![i].d = <<>>] ELSE ino1
            /\ fds' = With(fds, o.r, [i |-> i, o |-> 0, ap |-> Bit(o.x, 8)])
    [] o.op = "write" ->
         LET f == fds[o.x] off == IF f.ap THEN Len(ino[f.i].d) ELSE f.o IN
         /\ ino' = Set(f.i, Overwrite(ino[f.i].d, off, SubSeq(o.d, 1, o.r)))
         /\ fds' = [fds EXCEPT ![o.x].o = off + o.r] /\ UNCHANGED dir
    [] o.op = "pwrite" ->
         /\ ino' = Set(fds[o.x].i, Overwrite(ino[fds[o.x].i].d, o.y, SubSeq(o.d, 1, o.r))) /\ UNCHANGED <<dir, fds>>
    [] o.op = "read" -> fds' = [fds EXCEPT ![o.x].o = @ + o.r] /\ UNCHANGED <<dir, ino>>
    [] o.op = "lseek" -> fds' = [fds EXCEPT ![o.x].o = o.r] /\ UNCHANGED <<dir, ino>>
    [] o.op = "close" -> fds' = Without(fds, o.x) /\ UNCHANGED <<dir, ino>>
    [] o.op = "dup" -> fds' = With(fds, o.r, fds[o.x]) /\ UNCHANGED <<dir, ino>>
    [] o.op = "rename" -> dir' = (IF o.a = o.b THEN dir ELSE With(Without(dir, o.a), o.b, dir[o.a])) /\ UNCHANGED <<ino, fds>>
    [] o.op = "link" -> dir' = With(dir, o.b, dir[o.a]) /\ UNCHANGED <<ino, fds>>
    [] o.op = "unlink" -> dir' = Without(dir, o.a) /\ UNCHANGED <<ino, fds>>
    [] o.op = "chmod" -> ino' = [ino EXCEPT ![dir[o.a]].m = o.x] /\ UNCHANGED <<dir, fds>>
    [] o.op = "fchmod" -> ino' = [ino EXCEPT ![fds[o.x].i].m = o.y] /\ UNCHANGED <<dir, fds>>
    [] o.op = "truncate" -> ino' = Set(dir[o.a], SubSeq(Overwrite(ino[dir[o.a]].d, o.x, <<>>), 1, o.x)) /\ UNCHANGED <<dir, fds>>
    [] o.op = "ftruncate" -> ino' = Set(fds[o.x].i, SubSeq(Overwrite(ino[fds[o.x].i].d, o.y, <<>>), 1, o.y)) /\ UNCHANGED <<dir, fds>>
    [] o.op = "fsync" -> UNCHANGED <<dir, ino, fds>>
    [] OTHER -> FALSE
Names(o) == /\ o.op \in {"chmod", "truncate", "link", "unlink", "rename"} => o.a \in DOMAIN dir
            /\ o.op \in {"write", "pwrite", "read", "lseek", "close", "dup", "fchmod", "ftruncate"} => o.x \in DOMAIN fds

\* the file system really ended up like this
Final == /\ {K.fin[k].n : k \in 1..Len(K.fin)} = DOMAIN dir
         /\ \A k \in 1..Len(K.fin) : ino[dir[K.fin[k].n]] = [d |-> K.fin[k].d, m |-> K.fin[k].m]
FinOf(f) == CHOOSE k \in 1..Len(K.fin) : K.fin[k].n = f.n
EndProblem(f) == IF ~\E k \in 1..Len(K.fin) : K.fin[k].n = f.n THEN "lost"
                 ELSE Problem(f, K.fin[FinOf(f)].d, K.fin[FinOf(f)].m, TRUE)
EndBad == {f \in Files : EndProblem(f) # ""}
Step ==
  /\ st = "run"
  /\ IF Bad # {} THEN LET f == CHOOSE f \in Bad : TRUE IN Decide(InState(f), n - 1)
     ELSE IF n > Len(K.ops) THEN st' = "end" /\ UNCHANGED <<c, n, dir, ino, fds>>
     ELSE LET o == K.ops[n] IN
          IF o.r >= 0 /\ ~Names(o) THEN st' = "unmodelled" /\ UNCHANGED <<c, n, dir, ino, fds>>
          ELSE Effect(o) /\ n' = n + 1 /\ UNCHANGED <<c, st>>
End ==
  /\ st \in {"end", "unmodelled"}
  /\ IF EndBad # {} THEN LET f == CHOOSE f \in EndBad : TRUE IN Decide(EndProblem(f), n)
     ELSE IF K.rc = 0 /\ \E f \in Files : f.cls = "rewrite" /\ K.fin[FinOf(f)].d # f.new THEN Decide("silently-not-written", n)
     ELSE IF K.rc # 0 /\ K.fired = 0 /\ K.ok = 1 THEN Decide("failed-without-reason", n)
     ELSE IF st = "end" /\ ~Final THEN Decide("skip-model-differs", n)
     ELSE Decide(IF st = "end" THEN "ok" ELSE "skip-unmodelled-call", n)
Next == Step \/ End
=============================================================================
