------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* C15, C16.  Where the effective configuration comes from, as a machine:  *)
(* walk from the directory of the listfile towards the root until one has  *)
(* a configuration file (unless some are given), then work through a queue *)
(* of configuration files, merging the options of each over those so far   *)
(* and adding what it includes to the end of the queue; the options given  *)
(* on the command line replace whatever resulted, and options nobody gave  *)
(* have the documented defaults.  (options.json lists the options of the   *)
(* documentation with their sections and defaults.)                        *)
(*                                                                         *)
(* Case: runs: loads of a configuration, each with files: [p: path, inc:   *)
(* its includes [abs, p], ent: its content]; cf: configuration files given *)
(* (given = 1); start: directory of the listfile; cli: [n, v] options on   *)
(* the command line; and what was observed: fail, tree: the effective      *)
(* configuration, warn: names reported (if said = 1), cmds: custom         *)
(* commands known to the parser, endl.  ref > 0: no files, but the dump of *)
(* the configuration of run ref was loaded; it must be the same one.       *)
(* outs: what formatting                                                   *)
(* with each of the configurations printed.                                *)
(* Content: [l: text] for a value or [m: <<name, content>> ...].           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Options == JsonDeserialize("options.json")
VARIABLES c, r, phase, cur, queue, merged, unknown, effs, opts
vars == <<c, r, phase, cur, queue, merged, unknown, effs, opts>>
K == Cases[c]
R == K.runs[r]
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Stop(clause, pos) == Verdict(clause, pos) /\ phase' = "done" /\ UNCHANGED <<c, r, cur, queue, merged, unknown, effs, opts>>

(* -------------------------------- content -------------------------------- *)
RECURSIVE Tree(_)
Tree(n) == IF "l" \in DOMAIN n THEN <<"leaf", n.l>>
           ELSE <<"map", [k \in {n.m[j][1] : j \in 1..Len(n.m)} |-> Tree(n.m[CHOOSE j \in 1..Len(n.m) : n.m[j][1] = k][2])]>>
RECURSIVE Merge(_, _)
Merge(f, g) == [k \in DOMAIN f \cup DOMAIN g |->
  IF k \notin DOMAIN g THEN f[k]
  ELSE IF k \notin DOMAIN f THEN g[k]
  ELSE IF f[k][1] = "map" THEN (IF g[k][1] = "map" THEN <<"map", Merge(f[k][2], g[k][2])>> ELSE f[k])
  ELSE g[k]]
Empty == [k \in {} |-> <<"leaf", "">>]
\* options outside of any section stand for those of their section
Section(name) == {opts[j].s : j \in {k \in 1..Len(opts) : opts[k].n = name}}
Flat(f) == {k \in DOMAIN f : Section(k) # {}}
Moved(f, s) == [k \in {q \in Flat(f) : Section(q) = {s}} |-> f[k]]
Sections == {opts[j].s : j \in 1..Len(opts)}
Sectioned(f) == [k \in (DOMAIN f \ Flat(f)) \cup UNION {Section(q) : q \in Flat(f)} |->
  IF k \notin Sections THEN f[k]
  ELSE IF k \notin DOMAIN f THEN <<"map", Moved(f, k)>>
  ELSE LET mv == Moved(f, k) g == f[k][2] IN <<"map", [q \in DOMAIN g \cup DOMAIN mv |-> IF q \in DOMAIN mv THEN mv[q] ELSE g[q]]>>]
NamesOf(s) == {opts[j].n : j \in {k \in 1..Len(opts) : opts[k].s = s}}
Hidden(name) == SubSeq(name, 1, 1) = "_"
UnknownIn(f) == {k \in DOMAIN f : ~Hidden(k) /\ k \notin Sections}
                \cup UNION {{q \in DOMAIN f[s][2] : ~Hidden(q) /\ q \notin NamesOf(s)} : s \in DOMAIN f \cap Sections}

(* --------------------------------- paths --------------------------------- *)
RECURSIVE Resolve(_, _)
Resolve(done, rest) ==
  IF rest = <<>> THEN done
  ELSE IF Head(rest) = ".." THEN Resolve(SubSeq(done, 1, Len(done) - 1), Tail(rest))
  ELSE IF Head(rest) = "." THEN Resolve(done, Tail(rest))
  ELSE Resolve(Append(done, Head(rest)), Tail(rest))
Dir(p) == SubSeq(p, 1, Len(p) - 1)
At(p) == {k \in 1..Len(R.files) : R.files[k].p = p}
Names == <<".cmake-format", ".cmake-format.py", ".cmake-format.json", ".cmake-format.yaml",
           "cmake-format.py", "cmake-format.json", "cmake-format.yaml">>

(* ------------------------------- the machine ----------------------------- *)
Begin == /\ phase' = "begin" /\ cur' = <<>> /\ queue' = <<>> /\ merged' = Empty /\ unknown' = {}
Init == /\ c \in 1..Len(Cases) /\ r = 1 /\ phase = "begin" /\ cur = <<>> /\ queue = <<>> /\ merged = Empty /\ unknown = {}
        /\ effs = <<>> /\ opts = SubSeq([k \in 1..Len(Options) |-> [s |-> Options[k].s, n |-> Options[k].n, d |-> Tree(Options[k].d)]], 1, Len(Options))
Start ==
  /\ phase = "begin"
  /\ IF r > Len(K.runs) THEN Stop(IF \E k \in 1..Len(K.outs) : K.outs[k] # K.outs[1] THEN "formats-differently" ELSE "ok", 0)
     ELSE IF R.ref > 0 THEN phase' = "judge" /\ UNCHANGED <<c, r, cur, queue, merged, unknown, effs, opts>>
     ELSE IF R.given = 1 THEN phase' = "load" /\ queue' = R.cf /\ UNCHANGED <<c, r, cur, merged, unknown, effs, opts>>
     ELSE phase' = "find" /\ cur' = R.start /\ UNCHANGED <<c, r, queue, merged, unknown, effs, opts>>
Find ==
  /\ phase = "find"
  /\ LET here == {k \in 1..Len(Names) : At(Append(cur, Names[k])) # {}}
     IN IF here # {} THEN /\ queue' = <<Append(cur, Names[CHOOSE k \in here : \A q \in here : k <= q])>> /\ phase' = "load"
                          /\ UNCHANGED <<c, r, cur, merged, unknown, effs, opts>>
        ELSE IF cur = <<>> THEN phase' = "load" /\ UNCHANGED <<c, r, cur, queue, merged, unknown, effs, opts>>
        ELSE cur' = Dir(cur) /\ UNCHANGED <<c, r, phase, queue, merged, unknown, effs, opts>>
NextRun(eff) == r' = r + 1 /\ effs' = Append(effs, eff) /\ Begin /\ UNCHANGED <<c, opts>>
Load ==
  /\ phase = "load"
  /\ IF queue = <<>> THEN phase' = "judge" /\ UNCHANGED <<c, r, cur, queue, merged, unknown, effs, opts>>
     ELSE IF At(Head(queue)) = {} THEN (IF R.fail = 0 THEN Stop("missing-file-ignored", r) ELSE NextRun(Empty))
     ELSE LET p == Head(queue) fl == R.files[CHOOSE k \in At(p) : TRUE] f == Sectioned(Tree(fl.ent)[2])
          IN /\ merged' = Merge(merged, f)
             /\ unknown' = unknown \cup UnknownIn(f)
             /\ queue' = Tail(queue) \o SubSeq([k \in 1..Len(fl.inc) |->
                  IF fl.inc[k].abs = 1 THEN Resolve(<<>>, fl.inc[k].p) ELSE Resolve(Dir(p), fl.inc[k].p)], 1, Len(fl.inc))
             /\ UNCHANGED <<c, r, phase, cur, effs, opts>>
Given(n) == {k \in 1..Len(R.cli) : R.cli[k].n = n}
Effective(j) ==
  LET o == opts[j] IN
  IF Given(o.n) # {} THEN Tree(R.cli[CHOOSE k \in Given(o.n) : \A q \in Given(o.n) : q <= k].v)
  ELSE IF o.s \in DOMAIN merged /\ o.n \in DOMAIN merged[o.s][2] THEN merged[o.s][2][o.n]
  ELSE o.d
Judge ==
  /\ phase = "judge"
  /\ LET eff == IF R.ref > 0 THEN effs[R.ref] ELSE SubSeq([j \in 1..Len(opts) |-> Effective(j)], 1, Len(opts))
         got == Tree(R.tree)[2]
         Got(j) == IF opts[j].s \in DOMAIN got /\ opts[j].n \in DOMAIN got[opts[j].s][2] THEN got[opts[j].s][2][opts[j].n] ELSE <<"none", "">>
         wrong == {j \in 1..Len(opts) : Got(j) # eff[j]}
         cmds == eff[CHOOSE j \in 1..Len(opts) : opts[j].n = "additional_commands"]
         le == eff[CHOOSE j \in 1..Len(opts) : opts[j].n = "line_ending"]
     IN IF R.fail = 1 THEN Stop("failed", r)
        ELSE IF wrong # {} THEN LET j == CHOOSE j \in wrong : TRUE IN Stop("option-" \o opts[j].n, r)
        ELSE IF R.said = 1 /\ {R.warn[k] : k \in 1..Len(R.warn)} # unknown THEN Stop("unknown-options", r)
        ELSE IF cmds[1] = "map" /\ {R.cmds[k] : k \in 1..Len(R.cmds)} # DOMAIN cmds[2] THEN Stop("commands-known", r)
        ELSE IF R.endl # (IF le = <<"leaf", "\"windows\"">> THEN "crlf" ELSE "lf") THEN Stop("line-ending-used", r)
        ELSE NextRun(eff)
Next == Start \/ Find \/ Load \/ Judge
=============================================================================
