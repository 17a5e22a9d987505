----------------------------- MODULE GenParsers ------------------------------
(***************************************************************************)
(* C25.  A reader of listfiles that follows the definitions of functions   *)
(* and macros: one lexical element per step, a stack of open definitions   *)
(* each with the variables that set() has given a value, and what the      *)
(* first cmake_parse_arguments() of each declares.  At the end the         *)
(* specifications must be those gen-parsers wrote.                         *)
(*                                                                         *)
(* Case: files: sequence of texts (those which can be read); missing:      *)
(* number of those which can not; rc exit status; err: text if the output  *)
(* can not be read as its format or not be used as configuration;          *)
(* out: sequence of [n name, sp spelling or <<>>, na [t "i"|"s", v],       *)
(* has 1 if flags and kwargs are given, fl flags, kw: [k, t, v]].          *)
(***************************************************************************)
EXTENDS CMakeLang, TLC, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)
\* f file, p position, name / depth / args: the statement being read,
\* stack: open definitions [i index in defs, vars, done], defs: what was
\* declared, glob: variables set outside of definitions
VARIABLES c, st, f, text, p, name, depth, args, stack, defs, glob
vars == <<c, st, f, text, p, name, depth, args, stack, defs, glob>>
K == Cases[c]
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ st' = "done" /\ UNCHANGED <<c, f, text, p, name, depth, args, stack, defs, glob>>

SEMI == 59  LCUR == 123  RCUR == 125
RECURSIVE Split(_, _, _)
Split(t, i, ch) == LET j == FindIn(t, i, {ch}) IN
                   IF j > Len(t) THEN <<SubSeq(t, i, Len(t))>> ELSE <<SubSeq(t, i, j - 1)>> \o Split(t, j + 1, ch)

N_SET == Cp("set")  N_CPA == Cp("cmake_parse_arguments")  N_LIST == Cp("list")  N_UNSET == Cp("unset")
N_FUN == Cp("function")  N_MAC == Cp("macro")  N_EFUN == Cp("endfunction")  N_EMAC == Cp("endmacro")
Defn(n) == n \in {N_FUN, N_MAC}
EndDefn(n) == n \in {N_EFUN, N_EMAC}
Read_(n) == n \in {N_SET, N_CPA, N_LIST, N_UNSET, N_FUN, N_MAC}

\* --------------------------------------------------------------- variables
Lookup(vs, n) == LET S == {i \in 1..Len(vs) : vs[i].k = n} IN IF S = {} THEN <<>> ELSE vs[CHOOSE i \in S : TRUE].v
Known(vs, n) == \E i \in 1..Len(vs) : vs[i].k = n
Drop(vs, n) == SelectSeq(vs, LAMBDA e : e.k # n)
Assign(vs, n, v) == Append(Drop(vs, n), [k |-> n, v |-> v])
\* the names that the references of a text name; a text with other uses of $ is odd
RECURSIVE Refs(_, _)
Refs(t, i) == LET j == FindIn(t, i, {DOLLAR}) IN
              IF j > Len(t) THEN {}
              ELSE LET b == Skip(t, j + 2, IdChar) IN {SubSeq(t, j + 2, b - 1)} \cup Refs(t, b)
RECURSIVE OddRef(_, _)
OddRef(t, i) == LET j == FindIn(t, i, {DOLLAR}) IN
                IF j > Len(t) THEN FALSE
                ELSE LET b == Skip(t, j + 2, IdChar) IN
                     IF Chr(t, j + 1) # LCUR \/ b = j + 2 \/ Chr(t, b) # RCUR THEN TRUE ELSE OddRef(t, b)
RECURSIVE Subst(_, _, _)
Subst(t, i, vs) == LET j == FindIn(t, i, {DOLLAR}) IN
                   IF j > Len(t) THEN SubSeq(t, i, Len(t))
                   ELSE LET b == Skip(t, j + 2, IdChar) IN
                        SubSeq(t, i, j - 1) \o Lookup(vs, SubSeq(t, j + 2, b - 1)) \o Subst(t, b + 1, vs)

\* --------------------------------------------------------------- arguments
\* an argument: kind and text without quotes
Arg(t, e) == [k |-> e.k, v |-> IF e.k = "q" THEN SubSeq(t, e.s + 1, e.e - 2) ELSE TextOf(t, e)]
\* the arguments that the reader evaluates
Plain(a) == a.k # "b" /\ ~OddRef(a.v, 1) /\ \A i \in 1..Len(a.v) : a.v[i] \notin {BSLASH, QUOTE, AT}
            /\ (a.k = "q" => Strip(a.v, {QUOTE}) = a.v)
W_CACHE == Cp("CACHE")  W_PARENT == Cp("PARENT_SCOPE")  W_ARGV == Cp("PARSE_ARGV")
Top == stack[Len(stack)]
\* variables of the file, seen from a definition, are outside the domain
FileVars(a) == \E n \in Refs(a.v, 1) : Known(glob, n) /\ ~Known(Top.vars, n)

\* set(): the state of the variables after it
SetWords == {i \in 2..Len(args) : args[i].k = "u" /\ ToUpper(args[i].v) \in {W_CACHE, W_PARENT}}
SetOdd == \/ args = <<>> \/ \E i \in 1..Len(args) : ~Plain(args[i]) \/ FileVars(args[i])
          \/ \E i \in 2..Len(args) : args[i].k = "q" /\ ToUpper(args[i].v) \in {W_CACHE, W_PARENT}
          \/ \E i \in SetWords : args[i].v \notin {W_CACHE, W_PARENT}
          \/ Cardinality(SetWords) > 1
          \/ \E i \in SetWords : args[i].v = W_PARENT /\ i # Len(args)
          \/ \E i \in SetWords : args[i].v = W_CACHE /\ (i = 2 \/ Len(args) \notin {i + 2, i + 3} \/ Known(Top.vars, args[1].v))
SetVars(vs) ==
  LET n == Subst(args[1].v, 1, vs)
      last == IF SetWords = {} THEN Len(args) ELSE (CHOOSE i \in SetWords : TRUE) - 1
      RECURSIVE Cat(_)
      Cat(i) == IF i > last THEN <<>> ELSE (IF i > 2 THEN <<SEMI>> ELSE <<>>) \o Subst(args[i].v, 1, vs) \o Cat(i + 1)
  IN IF \E i \in SetWords : args[i].v = W_PARENT THEN vs
     ELSE IF last < 2 THEN Drop(vs, n) ELSE Assign(vs, n, Cat(2))

\* cmake_parse_arguments(): the keywords that a list declares
Base == IF args # <<>> /\ args[1].k = "u" /\ args[1].v = W_ARGV THEN 2 ELSE 0
CpaOdd == \/ Len(args) < Base + 4
          \/ \E i \in (Base + 2)..(Base + 4) : ~Plain(args[i]) \/ FileVars(args[i])
          \/ \E i \in (Base + 2)..(Base + 4) : args[i].k = "u" /\ LET v == Subst(args[i].v, 1, Top.vars) IN v = <<>> \/ \E j \in 1..Len(v) : v[j] = SEMI
Keywords(i) ==
  LET ps == Split(Subst(args[Base + i].v, 1, Top.vars), 1, SEMI)
      us == SubSeq([j \in 1..Len(ps) |-> ToUpper(Strip(ps[j], Space))], 1, Len(ps))
  IN SelectSeq(us, LAMBDA u : u # <<>>)
Twice(s) == \E i, j \in 1..Len(s) : i < j /\ s[i] = s[j]

\* ------------------------------------------------------------------ output
Digits == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE Dec(n \div 10) \o <<Digits[(n % 10) + 1]>>
NArgs(d) == IF ~d.has THEN [t |-> "i", v |-> Dec(d.n)]
            ELSE [t |-> "s", v |-> IF d.n = 0 THEN <<42>> ELSE Dec(d.n) \o <<43>>]
Spelled(d) == IF d.name = ToLower(d.name) \/ d.name = ToUpper(d.name) THEN <<>> ELSE d.name
Kw(d) == {[k |-> d.one[i], t |-> "i", v |-> <<49>>] : i \in 1..Len(d.one)} \cup {[k |-> d.multi[i], t |-> "s", v |-> <<43>>] : i \in 1..Len(d.multi)}
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* the last definition of a name counts; names that start with an underscore are private
Public == {i \in 1..Len(defs) : defs[i].name[1] # 95 /\ \A j \in (i + 1)..Len(defs) : ToLower(defs[j].name) # ToLower(defs[i].name)}
Find(n) == CHOOSE i \in Public : ToLower(defs[i].name) = n
Wrong ==
  IF {K.out[i].n : i \in 1..Len(K.out)} # {ToLower(defs[i].name) : i \in Public} \/ Len(K.out) # Cardinality(Public) THEN "functions"
  ELSE LET Bad(g(_, _)) == \E i \in 1..Len(K.out) : ~g(K.out[i], defs[Find(K.out[i].n)]) IN
    IF Bad(LAMBDA o, d : o.sp = Spelled(d)) THEN "spelling"
    ELSE IF Bad(LAMBDA o, d : o.na = NArgs(d)) THEN "positional-arguments"
    ELSE IF Bad(LAMBDA o, d : (o.has = 1) = d.has) THEN "keywords-declared"
    ELSE IF Bad(LAMBDA o, d : o.fl = d.flags) THEN "flags"
    ELSE IF Bad(LAMBDA o, d : SetOf(o.kw) = Kw(d) /\ Len(o.kw) = Cardinality(Kw(d))) THEN "keywords"
    ELSE "ok"

\* -------------------------------------------------------------- transitions
Init == /\ c \in 1..Len(Cases) /\ st = "read" /\ f = 1 /\ text = (IF Cases[c].files = <<>> THEN <<>> ELSE Cases[c].files[1])
        /\ p = 1 /\ name = <<>> /\ depth = 0 /\ args = <<>> /\ stack = <<>> /\ defs = <<>> /\ glob = <<>>

InDef == stack # <<>>
Malformed ==
  IF Defn(name) THEN args = <<>> \/ args[1].k # "u" \/ ~Plain(args[1]) \/ Refs(args[1].v, 1) # {}
  ELSE IF ~InDef THEN IF EndDefn(name) THEN TRUE ELSE FALSE
  ELSE IF Top.done THEN FALSE
  ELSE IF name = N_SET THEN SetOdd
  ELSE IF name \in {N_LIST, N_UNSET} THEN TRUE
  ELSE IF name = N_CPA THEN CpaOdd \/ Twice(Keywords(2)) \/ Twice(Keywords(3) \o Keywords(4))
  ELSE FALSE

\* a complete statement
Apply ==
  IF Defn(name) THEN
    /\ defs' = Append(defs, [name |-> args[1].v, n |-> Len(args) - 1, has |-> FALSE, flags |-> <<>>, one |-> <<>>, multi |-> <<>>])
    /\ stack' = Append(stack, [i |-> Len(defs) + 1, vars |-> <<>>, done |-> FALSE])
    /\ UNCHANGED glob
  ELSE IF EndDefn(name) THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<defs, glob>>
  ELSE IF name = N_SET THEN
    IF ~InDef THEN glob' = (IF args = <<>> THEN glob ELSE Assign(glob, args[1].v, <<>>)) /\ UNCHANGED <<defs, stack>>
    ELSE IF Top.done THEN UNCHANGED <<defs, stack, glob>>
    ELSE stack' = [stack EXCEPT ![Len(stack)].vars = SetVars(@)] /\ UNCHANGED <<defs, glob>>
  ELSE IF name = N_CPA /\ InDef /\ ~Top.done THEN
    /\ defs' = [defs EXCEPT ![Top.i].has = TRUE, ![Top.i].flags = Keywords(2), ![Top.i].one = Keywords(3), ![Top.i].multi = Keywords(4)]
    /\ stack' = [stack EXCEPT ![Len(stack)].done = TRUE]
    /\ UNCHANGED glob
  ELSE UNCHANGED <<defs, stack, glob>>

Read ==
  /\ st = "read" /\ f <= Len(K.files)
  /\ LET e == NextEvent(text, p) IN
     IF e.k = "eof" THEN IF depth > 0 \/ name # <<>> \/ stack # <<>> THEN Decide("skip-not-cmake", p)
                         ELSE f' = f + 1 /\ p' = 1 /\ text' = (IF f + 1 > Len(K.files) THEN <<>> ELSE K.files[f + 1]) /\ glob' = <<>>
                              /\ UNCHANGED <<c, st, name, depth, args, stack, defs>>
     ELSE IF e.k = "bad" THEN Decide("skip-not-cmake", p)
     ELSE IF IsComment(e) THEN p' = e.e /\ UNCHANGED <<c, st, f, text, name, depth, args, stack, defs, glob>>
     ELSE IF depth = 0 THEN
       IF e.k = "u" /\ name = <<>> THEN name' = ToLower(TextOf(text, e)) /\ p' = e.e /\ UNCHANGED <<c, st, f, text, depth, args, stack, defs, glob>>
       ELSE IF e.k = "(" /\ name # <<>> THEN depth' = 1 /\ args' = <<>> /\ p' = e.e /\ UNCHANGED <<c, st, f, text, name, stack, defs, glob>>
       ELSE Decide("skip-not-cmake", p)
     ELSE IF e.k = "(" THEN
       IF Read_(name) THEN Decide("skip-paren", p)
       ELSE depth' = depth + 1 /\ p' = e.e /\ UNCHANGED <<c, st, f, text, name, args, stack, defs, glob>>
     ELSE IF e.k = ")" THEN
       IF depth > 1 THEN depth' = depth - 1 /\ p' = e.e /\ UNCHANGED <<c, st, f, text, name, args, stack, defs, glob>>
       ELSE IF Malformed THEN Decide("skip-statement", p)
       ELSE Apply /\ depth' = 0 /\ name' = <<>> /\ args' = <<>> /\ p' = e.e /\ UNCHANGED <<c, st, f, text>>
     ELSE IF Read_(name) THEN args' = Append(args, Arg(text, e)) /\ p' = e.e /\ UNCHANGED <<c, st, f, text, name, depth, stack, defs, glob>>
     ELSE p' = e.e /\ UNCHANGED <<c, st, f, text, name, depth, args, stack, defs, glob>>

Compare ==
  /\ st = "read" /\ f > Len(K.files)
  /\ IF K.err # <<>> THEN Decide("failed", 0)
     ELSE IF (K.rc = 0) # (K.missing = 0) THEN Decide("exit-status", 0)
     ELSE Decide(Wrong, 0)

Next == Read \/ Compare
=============================================================================
