-------------------------------- MODULE CTest --------------------------------
(***************************************************************************)
(* C24.  A reader of a tree of CTestTestfile.cmake files, as ctest reads   *)
(* them: a queue of directories, one lexical element per step, arguments   *)
(* evaluated by the rules of cmake-language(7), commands add_test,         *)
(* set_tests_properties and subdirs.  Conditions are not evaluated (the    *)
(* tool reads every branch; the last definition of a test counts).  At the *)
(* end the tests must be those which ctest-to wrote as JSON and as XML.    *)
(*                                                                         *)
(* Case: dirs: sequence of [d directory, x text]; first is where it        *)
(* starts; err; json: tests [n, v, d, p: [k key, t kind s|l|n, v texts]];  *)
(* xml: tests [n, v, d, p: [k, v], l labels].                              *)
(***************************************************************************)
EXTENDS CMakeLang, TLC, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)
\* queue of directories, seen: those queued so far; text of the file of the first one, p position in it
\* name, depth, args: the statement being read; tests: what was defined
VARIABLES c, st, queue, seen, text, p, name, depth, args, tests
vars == <<c, st, queue, seen, text, p, name, depth, args, tests>>
K == Cases[c]
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ st' = "done" /\ UNCHANGED <<c, queue, seen, text, p, name, depth, args, tests>>

SEMI == 59  SLASH == 47  DOT == 46  UNDER == 95

\* ------------------------------------------------------------- directories
RECURSIVE Split(_, _, _)
Split(t, i, ch) == LET j == FindIn(t, i, {ch}) IN
                   IF j > Len(t) THEN <<SubSeq(t, i, Len(t))>> ELSE <<SubSeq(t, i, j - 1)>> \o Split(t, j + 1, ch)
RECURSIVE NormParts(_, _, _)
NormParts(ps, i, acc) ==
  IF i > Len(ps) THEN acc
  ELSE IF ps[i] = <<>> \/ ps[i] = <<DOT>> THEN NormParts(ps, i + 1, acc)
  ELSE IF ps[i] = <<DOT, DOT>> THEN NormParts(ps, i + 1, SubSeq(acc, 1, Len(acc) - 1))
  ELSE NormParts(ps, i + 1, Append(acc, ps[i]))
Norm(d) == NormParts(Split(d, 1, SLASH), 1, <<>>)
Join(d, s) == IF Chr(s, 1) = SLASH THEN s ELSE d \o <<SLASH>> \o s

\* the text of the file in directory d; "none" if there is no such file
FileOf(d) == LET S == {i \in 1..Len(K.dirs) : Norm(K.dirs[i].d) = Norm(d)} IN
             IF S = {} THEN <<>> ELSE DropCR(K.dirs[CHOOSE i \in S : TRUE].x)

\* --------------------------------------------------------------- arguments
Escaped(ch) == CASE ch = 116 -> <<TAB>> [] ch = 110 -> <<LF>> [] ch = 114 -> <<CR>>
                 [] ch = SEMI -> <<BSLASH, SEMI>> [] OTHER -> <<ch>>
RECURSIVE Unescape(_, _, _)
Unescape(t, i, quoted) ==
  LET j == FindIn(t, i, {BSLASH}) IN
  IF j >= Len(t) THEN SubSeq(t, i, Len(t))
  ELSE IF quoted /\ t[j + 1] = LF THEN SubSeq(t, i, j - 1) \o Unescape(t, j + 2, quoted)
  ELSE SubSeq(t, i, j - 1) \o Escaped(t[j + 1]) \o Unescape(t, j + 2, quoted)
Value(t, e) ==
  CASE e.k = "b" -> LET n == BracketOpen(t, e.s) a == e.s + n + 2
                    IN SubSeq(t, IF Chr(t, a) = LF THEN a + 1 ELSE a, e.e - n - 3)
    [] e.k = "q" -> Unescape(SubSeq(t, e.s + 1, e.e - 2), 1, TRUE)
    [] e.k = "u" -> Unescape(TextOf(t, e), 1, FALSE)
\* escape sequences, lists and references which the reader does not evaluate
\* (CMake would), or which CMake does not accept
RECURSIVE BadEscape(_, _)
BadEscape(t, i) == LET j == FindIn(t, i, {BSLASH}) IN
                   IF j > Len(t) THEN FALSE
                   ELSE IF Chr(t, j + 1) \in (Alpha \ {116, 110, 114}) \cup Digit THEN TRUE ELSE BadEscape(t, j + 2)
HasRef(t) == \E i \in 1..Len(t) : (t[i] = DOLLAR /\ Chr(t, i + 1) # SP /\ (i = 1 \/ t[i - 1] # BSLASH)) \/ t[i] = AT
Evaluated(t, e) == LET s == TextOf(t, e) IN
                   e.k = "b" \/ (~BadEscape(s, 1) /\ ~HasRef(s) /\ (e.k = "q" \/ \A i \in 1..Len(s) : s[i] # SEMI /\ (s[i] # QUOTE \/ Chr(s, i - 1) = BSLASH)))

\* -------------------------------------------------------------- statements
CMD == [add |-> Cp("add_test"), set |-> Cp("set_tests_properties"), sub |-> Cp("subdirs")]
IsCmd(n) == n \in {CMD.add, CMD.set, CMD.sub}
PROPS == Cp("PROPERTIES")
Has(n, d) == {i \in 1..Len(tests) : tests[i].n = n /\ tests[i].d = d}
Without(s, I) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE IF i \in I THEN F[i - 1] ELSE Append(F[i - 1], s[i]) IN F[Len(s)]
\* properties are pairs; setting one again replaces it
SetPair(ps, k, v) == IF \E i \in 1..Len(ps) : ps[i].k = k
                     THEN SubSeq([i \in 1..Len(ps) |-> IF ps[i].k = k THEN [k |-> k, v |-> v] ELSE ps[i]], 1, Len(ps))
                     ELSE Append(ps, [k |-> k, v |-> v])
RECURSIVE SetPairs(_, _, _)
SetPairs(ps, as, i) == IF i > Len(as) THEN ps ELSE SetPairs(SetPair(ps, as[i], as[i + 1]), as, i + 2)
KeyAt(as) == LET S == {i \in 1..Len(as) : as[i] = PROPS} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

\* ------------------------------------------------------------------ output
Less(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                  D == {i \in 1..m : a[i] # b[i]} IN
              IF D = {} THEN Len(a) < Len(b) ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]
Before(a, b) == Less(a.n, b.n) \/ (a.n = b.n /\ Less(a.d, b.d))
Rank(i) == 1 + Cardinality({j \in 1..Len(tests) : Before(tests[j], tests[i])})
Sorted == SubSeq([r \in 1..Len(tests) |-> tests[CHOOSE i \in 1..Len(tests) : Rank(i) = r]], 1, Len(tests))
LABELS == Cp("LABELS")  TIMEOUT == Cp("TIMEOUT")
\* a number without insignificant zeros
Canon(t) == LET a == LStrip(t, {48})
                b == IF \E i \in 1..Len(a) : a[i] = DOT THEN RStrip(a, {48}) ELSE a
                d == RStrip(b, {DOT})
            IN IF d = <<>> \/ d[1] = DOT THEN <<48>> \o d ELSE d
IsNum(t) == t # <<>> /\ Cardinality({i \in 1..Len(t) : t[i] = DOT}) <= 1 /\ (\A i \in 1..Len(t) : t[i] \in Digit \cup {DOT}) /\ \E i \in 1..Len(t) : t[i] \in Digit
Shown(ps) == {i \in 1..Len(ps) : ps[i].k[1] # UNDER}
JsonProp(q) == [k |-> ToLower(q.k), t |-> IF q.k = LABELS THEN "l" ELSE IF q.k = TIMEOUT THEN "n" ELSE "s",
                v |-> IF q.k = LABELS THEN Split(q.v, 1, SEMI) ELSE IF q.k = TIMEOUT THEN <<Canon(q.v)>> ELSE <<q.v>>]
JsonProps(ps) == {JsonProp(ps[i]) : i \in Shown(ps)}
XmlProps(ps) == {[k |-> ToLower(ps[i].k), v |-> ps[i].v] : i \in {j \in Shown(ps) : ps[j].k # LABELS}}
XmlLabels(ps) == LET S == {i \in 1..Len(ps) : ps[i].k = LABELS} IN
                 IF S = {} THEN <<>> ELSE Split(ps[CHOOSE i \in S : TRUE].v, 1, SEMI)

\* properties whose presentation is not defined
RESERVED == {Cp("name"), Cp("cwd")}
Odd(ps) == \/ \E i \in 1..Len(ps) : ps[i].k = <<>> \/ ps[i].k[1] \notin IdStart \/ Skip(ps[i].k, 1, IdChar \cup {45, DOT}) <= Len(ps[i].k)
           \/ \E i, j \in 1..Len(ps) : i < j /\ ToLower(ps[i].k) = ToLower(ps[j].k)
           \/ \E i \in 1..Len(ps) : ToLower(ps[i].k) \in RESERVED
           \/ \E i \in 1..Len(ps) : ps[i].k = TIMEOUT /\ ~IsNum(ps[i].v)
           \/ \E i \in 1..Len(ps) : ps[i].k = LABELS /\ (\E j \in 1..Len(ps[i].v) : ps[i].v[j] = BSLASH
                                         \/ \E s \in {Split(ps[i].v, 1, SEMI)[m] : m \in 1..Len(Split(ps[i].v, 1, SEMI))} : s = <<>>)

SetOf(s) == {s[i] : i \in 1..Len(s)}
Wrong(want) ==
  LET n == Len(want) IN
  IF Len(K.json) # n THEN "json-number-of-tests"
  ELSE IF \E i \in 1..n : K.json[i].n # want[i].n THEN "json-name"
  ELSE IF \E i \in 1..n : Norm(K.json[i].d) # Norm(want[i].d) THEN "json-directory"
  ELSE IF \E i \in 1..n : K.json[i].v # want[i].v THEN "json-command"
  ELSE IF \E i \in 1..n : SetOf(K.json[i].p) # JsonProps(want[i].p) \/ Len(K.json[i].p) # Cardinality(JsonProps(want[i].p)) THEN "json-properties"
  ELSE IF Len(K.xml) # n THEN "xml-number-of-tests"
  ELSE IF \E i \in 1..n : K.xml[i].n # want[i].n THEN "xml-name"
  ELSE IF \E i \in 1..n : Norm(K.xml[i].d) # Norm(want[i].d) THEN "xml-directory"
  ELSE IF \E i \in 1..n : K.xml[i].v # want[i].v THEN "xml-command"
  ELSE IF \E i \in 1..n : SetOf(K.xml[i].p) # XmlProps(want[i].p) THEN "xml-properties"
  ELSE IF \E i \in 1..n : K.xml[i].l # XmlLabels(want[i].p) THEN "xml-labels"
  ELSE "ok"

\* -------------------------------------------------------------- transitions
Init == /\ c \in 1..Len(Cases) /\ st = "read" /\ queue = <<Cases[c].dirs[1].d>> /\ seen = {Cases[c].dirs[1].d}
        /\ text = FileOf(queue[1]) /\ p = 1 /\ name = <<>> /\ depth = 0 /\ args = <<>> /\ tests = <<>>

\* the statement is complete
Apply(e) ==
  IF name = CMD.add THEN
    IF args = <<>> THEN Decide("skip-no-name", e)
    ELSE tests' = Append(Without(tests, Has(args[1], queue[1])), [n |-> args[1], d |-> queue[1], v |-> SubSeq(args, 2, Len(args)), p |-> <<>>])
         /\ UNCHANGED <<st, queue, seen>>
  ELSE IF name = CMD.set THEN
    LET k == KeyAt(args) IN
    IF k = 0 \/ (Len(args) - k) % 2 = 1 THEN Decide("skip-no-properties", e)
    ELSE LET N == {args[i] : i \in 1..(k - 1)} IN
         tests' = SubSeq([i \in 1..Len(tests) |-> IF tests[i].d = queue[1] /\ tests[i].n \in N
                                                   THEN [tests[i] EXCEPT !.p = SetPairs(@, args, k + 1)] ELSE tests[i]], 1, Len(tests))
         /\ UNCHANGED <<st, queue, seen>>
  ELSE IF name = CMD.sub THEN
    LET ds == SubSeq([i \in 1..Len(args) |-> Join(queue[1], args[i])], 1, Len(args)) IN
    IF \E i \in 1..Len(ds) : args[i] = <<>> \/ ds[i] \in seen \/ \E o \in seen \cup (SetOf(ds) \ {ds[i]}) : Norm(o) = Norm(ds[i])
    THEN Decide("skip-same-directory", e)
    ELSE queue' = queue \o ds /\ seen' = seen \cup SetOf(ds) /\ UNCHANGED <<st, tests>>
  ELSE UNCHANGED <<st, queue, seen, tests>>

Read ==
  /\ st = "read" /\ queue # <<>>
  /\ LET t == text e == NextEvent(t, p) IN
     IF e.k = "eof" THEN IF depth > 0 \/ name # <<>> THEN Decide("skip-not-cmake", p)
                         ELSE queue' = Tail(queue) /\ p' = 1 /\ text' = (IF Len(queue) = 1 THEN <<>> ELSE FileOf(queue[2])) /\ UNCHANGED <<c, st, seen, name, depth, args, tests>>
     ELSE IF e.k = "bad" THEN Decide("skip-not-cmake", p)
     ELSE IF IsComment(e) THEN p' = e.e /\ UNCHANGED <<c, st, queue, seen, text, name, depth, args, tests>>
     ELSE IF depth = 0 THEN
       IF e.k = "u" /\ name = <<>> THEN name' = ToLower(TextOf(t, e)) /\ p' = e.e /\ UNCHANGED <<c, st, queue, seen, text, depth, args, tests>>
       ELSE IF e.k = "(" /\ name # <<>> THEN depth' = 1 /\ args' = <<>> /\ p' = e.e /\ UNCHANGED <<c, st, queue, seen, text, name, tests>>
       ELSE Decide("skip-not-cmake", p)
     ELSE IF e.k = "(" THEN
       IF IsCmd(name) THEN Decide("skip-paren", p)
       ELSE depth' = depth + 1 /\ p' = e.e /\ UNCHANGED <<c, st, queue, seen, text, name, args, tests>>
     ELSE IF e.k = ")" THEN
       IF depth > 1 THEN depth' = depth - 1 /\ p' = e.e /\ UNCHANGED <<c, st, queue, seen, text, name, args, tests>>
       ELSE IF IsCmd(name) /\ ((name = CMD.add /\ args = <<>>) \/ (name = CMD.set /\ (KeyAt(args) = 0 \/ (Len(args) - KeyAt(args)) % 2 = 1))
                  \/ (name = CMD.sub /\ LET ds == SubSeq([i \in 1..Len(args) |-> Join(queue[1], args[i])], 1, Len(args)) IN
                        \E i \in 1..Len(ds) : args[i] = <<>> \/ \E j \in 1..Len(ds) : (j # i /\ Norm(ds[j]) = Norm(ds[i])) \/ \E o \in seen : Norm(o) = Norm(ds[i])))
            THEN Decide("skip-malformed", p)
       ELSE Apply(p) /\ depth' = 0 /\ name' = <<>> /\ args' = <<>> /\ p' = e.e /\ UNCHANGED <<c, text>>
     ELSE IF ~IsCmd(name) THEN p' = e.e /\ UNCHANGED <<c, st, queue, seen, text, name, depth, args, tests>>
     ELSE IF ~Evaluated(t, e) THEN Decide("skip-evaluation", p)
     ELSE args' = Append(args, Value(t, e)) /\ p' = e.e /\ UNCHANGED <<c, st, queue, seen, text, name, depth, tests>>

Compare ==
  /\ st = "read" /\ queue = <<>>
  /\ IF \E i \in 1..Len(tests) : Odd(tests[i].p) THEN Decide("skip-property", 0)
     ELSE IF K.err # <<>> THEN Decide("failed", 0)
     ELSE Decide(Wrong(Sorted), 0)

Next == Read \/ Compare
=============================================================================
