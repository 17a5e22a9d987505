---------------------------- MODULE GroupMachine ----------------------------
(***************************************************************************)
(* How the arguments of a command are grouped.  A command's grammar is a   *)
(* tree of nodes: positional groups with a number of arguments, flags and  *)
(* keywords with their own grammar.  The grammars of the built-in commands *)
(* are in cmddb.json; those of user-supplied commands are interpreted here *)
(* from the configuration (additional_commands, override_spec).  A machine *)
(* with a stack of open groups reads the arguments one by one and emits    *)
(* the tree of groups in pre-order, which is what C18 (Grouping), C11      *)
(* (Letters) and C05 (Sorting) rest on.                                    *)
(*                                                                         *)
(* Case: cmd name (lower case); t: the tokens between the parentheses and  *)
(* the closing one: k kind "(" ")" or "w", u spelling in upper case, n the *)
(* spelling as a keyword ("" if it cannot be one), d 1 if it is a variable *)
(* reference, m 1 if a comment stands before it, g 1 or 2 if that is an    *)
(* annotation to sort or not to sort, v 1 if it has a variable reference   *)
(* somewhere; user: configured commands; over: overrides.                  *)
(***************************************************************************)
EXTENDS CMakeLang, FiniteSets, TLC, Json, IOUtils


Cases == ndJsonDeserialize(IOEnv.CASES)
DB == ndJsonDeserialize("cmddb.json")
VARIABLES c, i, ev, stk, st
vars == <<c, i, ev, stk, st>>
K == Cases[c]
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ st' = "done" /\ UNCHANGED <<c, i, ev, stk>>

Range(s) == {s[k] : k \in 1..Len(s)}
---------------------------------------------------------------------------
(* Grammars supplied by the user, as tagged JSON values                    *)
Star == [n |-> -1, x |-> 0, f |-> <<>>, leg |-> 0, so |-> 0]
Has(d, key) == \E k \in 1..Len(d.v) : d.v[k].k.s = key
Get(d, key) == d.v[CHOOSE k \in 1..Len(d.v) : d.v[k].k.s = key].v

RECURSIVE Digits(_, _, _)
Digits(s, k, acc) == IF k > Len(s) \/ s[k] < 48 \/ s[k] > 57 THEN acc ELSE Digits(s, k + 1, acc * 10 + (s[k] - 48))
\* number of arguments: an integer is exact; "?" at most one; "*", "+", "2+"
\* any number; "2" at most two
\* (mn: the least number, which does not decide the grouping)
NArgs(v) == IF v.t = "int" THEN [n |-> v.v, x |-> 1, mn |-> v.v]
            ELSE IF v.s = "?" THEN [n |-> 1, x |-> 0, mn |-> 0]
            ELSE IF v.c[Len(v.c)] \in {42, 43} THEN [n |-> -1, x |-> 0, mn |-> IF v.s = "+" THEN 1 ELSE Digits(v.c, 1, 0)]
            ELSE [n |-> Digits(v.c, 1, 0), x |-> 0, mn |-> Digits(v.c, 1, 0)]
\* spelling of a keyword or flag as it is compared
Norm(s) == IF Len(s.c) > 0 /\ s.c[1] = 45 THEN s.lo ELSE s.up
Flags(v) == SubSeq([k \in 1..Len(v.v) |-> Norm(v.v[k])], 1, Len(v.v))
\* fl: a tagged list of flags; fu their upper case, in which they end a group
NoFlags == [t |-> "list", v |-> <<>>]
FlagUps(v) == SubSeq([k \in 1..Len(v.v) |-> v.v[k].up], 1, Len(v.v))
PSpec(nv, fl, leg, so) == LET n == NArgs(nv) IN [n |-> n.n, x |-> n.x, mn |-> n.mn, f |-> Flags(fl), fu |-> FlagUps(fl), leg |-> leg, so |-> so, hw |-> -1, cl |-> 0]
\* hw: how many arguments may be wrapped (-1: as configured), cl: laid out as
\* a command line; neither decides the grouping
Limit(d, key) == IF Has(d, key) THEN Get(d, key).v ELSE -1
CmdLine(v) == IF \E k \in 1..Len(v.v) : v.v[k].s = "cmdline" THEN 1 ELSE 0
UpFlags(p) == Range(IF "fu" \in DOMAIN p THEN p.fu ELSE p.f)
StarV == [t |-> "str", s |-> "*", c |-> <<42>>]
DictPSpec(d) == [PSpec(IF Has(d, "nargs") THEN Get(d, "nargs") ELSE StarV,
                       IF Has(d, "flags") THEN Get(d, "flags") ELSE NoFlags, 0,
                       IF Has(d, "sortable") THEN Get(d, "sortable").v ELSE 0)
                 EXCEPT !.hw = Limit(d, "max_pargs_hwrap"), !.cl = IF Has(d, "tags") THEN CmdLine(Get(d, "tags")) ELSE 0]
TupPSpec(l) ==   \* (nargs, sortable, tags, flags), the last may be a dictionary
  LET last == l.v[Len(l.v)]
      n == IF last.t = "dict" THEN Len(l.v) - 1 ELSE Len(l.v)
      d == IF last.t = "dict" THEN last ELSE [t |-> "dict", v |-> <<>>]
  IN [PSpec(IF n >= 1 THEN l.v[1] ELSE Get(d, "nargs"),
            IF n >= 4 THEN l.v[4] ELSE IF Has(d, "flags") THEN Get(d, "flags") ELSE NoFlags, 0,
            IF n >= 2 THEN l.v[2].v ELSE IF Has(d, "sortable") THEN Get(d, "sortable").v ELSE 0)
      EXCEPT !.hw = Limit(d, "max_pargs_hwrap"),
             !.cl = IF n >= 3 THEN CmdLine(l.v[3]) ELSE IF Has(d, "tags") THEN CmdLine(Get(d, "tags")) ELSE 0]
Scalar(v) == v.t \in {"int", "str"}
PSpecs(v, fl) ==
  IF Scalar(v) THEN <<PSpec(v, fl, 1, 0)>>
  ELSE IF v.t = "dict" THEN <<DictPSpec(v)>>
  ELSE SubSeq([k \in 1..Len(v.v) |-> IF Scalar(v.v[k]) THEN PSpec(v.v[k], NoFlags, 0, 0)
                                     ELSE IF v.v[k].t = "dict" THEN DictPSpec(v.v[k])
                                     ELSE TupPSpec(v.v[k])], 1, Len(v.v))
Shell == [t |-> "std", p |-> <<[n |-> -1, x |-> 0, f |-> <<>>, leg |-> 1, so |-> 0, cl |-> 1]>>, kw |-> <<>>]

RECURSIVE UserNode(_)
KwNode(key, v) ==
  IF key.s = "COMMAND" THEN Shell
  ELSE IF Scalar(v) THEN [t |-> "std", p |-> PSpecs(v, NoFlags), kw |-> <<>>]
  ELSE IF Has(v, "nargs") THEN [t |-> "std", p |-> <<DictPSpec(v)>>, kw |-> <<>>]
  ELSE UserNode(v)
UserNode(d) ==
  LET fl == IF Has(d, "flags") THEN Get(d, "flags") ELSE NoFlags
      pv == IF Has(d, "pargs") THEN Get(d, "pargs") ELSE StarV
      kws == IF Has(d, "kwargs") THEN Get(d, "kwargs") ELSE [t |-> "dict", v |-> <<>>]
      pair(k) == IF kws.t = "dict" THEN kws.v[k] ELSE [k |-> kws.v[k].v[1], v |-> kws.v[k].v[2]]
  IN [t |-> "std", p |-> PSpecs(pv, fl), hs |-> Limit(d, "max_subgroups_hwrap"),
      kw |-> SubSeq([k \in 1..Len(kws.v) |-> [k |-> Norm(pair(k).k), u |-> pair(k).k.up, r |-> pair(k).k.s,
                                             s |-> KwNode(pair(k).k, pair(k).v)]], 1, Len(kws.v))]

\* an override replaces one attribute of one positional specification
RECURSIVE Override(_, _, _)
Override(node, path, o) ==
  IF Len(path) = 0 /\ o.idx < 0 THEN [hs |-> o.v.v] @@ node
  ELSE IF Len(path) = 0
    THEN [node EXCEPT !.p[o.idx + 1] =
            IF o.attr = "nargs" THEN [@ EXCEPT !.n = NArgs(o.v).n, !.x = NArgs(o.v).x, !.mn = NArgs(o.v).mn]
            ELSE IF o.attr = "sortable" THEN [@ EXCEPT !.so = o.v.v]
            ELSE IF o.attr = "tags" THEN [@ EXCEPT !.cl = CmdLine(o.v)]
            ELSE IF o.attr = "max_pargs_hwrap" THEN [@ EXCEPT !.hw = o.v.v]
            ELSE IF o.attr = "flags" THEN [@ EXCEPT !.f = Flags(o.v), !.fu = FlagUps(o.v)] ELSE @]
  ELSE LET k == CHOOSE k \in 1..Len(node.kw) : node.kw[k].r = path[1]
       IN [node EXCEPT !.kw[k].s = Override(node.kw[k].s, Tail(path), o)]
RECURSIVE Overrides(_, _, _)
Overrides(node, k, name) ==
  IF k > Len(K.over) THEN node
  ELSE Overrides(IF K.over[k].cmd = name THEN Override(node, K.over[k].path, K.over[k]) ELSE node, k + 1, name)

\* the grammar of the command
Node ==
  LET us == {k \in 1..Len(K.user) : K.user[k].name = K.cmd}
      bs == {k \in 1..Len(DB) : DB[k].name = K.cmd}
  IN IF us # {} THEN Overrides(UserNode(K.user[CHOOSE k \in us : TRUE].v), 1, K.cmd)
     ELSE IF bs # {} THEN DB[CHOOSE k \in bs : TRUE].s
     ELSE [t |-> "std", p |-> <<[n |-> -1, x |-> 0, f |-> <<>>, leg |-> 1, so |-> 0]>>, kw |-> <<>>]
---------------------------------------------------------------------------
(* The machine.  A frame is an open group; o tells whether its opening has *)
(* been recorded, which happens with its first argument (groups without    *)
(* arguments are not observed).                                            *)
T == IF i <= Len(K.t) THEN K.t[i] ELSE [k |-> "end", u |-> "", n |-> "", d |-> 0, m |-> 0, g |-> 0, v |-> 0]
TokAt(k) == IF k <= Len(K.t) THEN K.t[k] ELSE [k |-> "end", u |-> "", n |-> "", d |-> 0, m |-> 0, g |-> 0, v |-> 0]
Break(bs) == T.k = ")" \/ T.u \in bs

F(kind, bs) == [t |-> kind, o |-> FALSE, bs |-> bs, cnt |-> 0]
PargS(n, x, f, bs, so) == F("parg", bs) @@ [n |-> n, x |-> x, f |-> f, so |-> so, mn |-> IF x = 1 THEN n ELSE 0, hw |-> -1, cl |-> 0]
AttrOf(p, name, default) == IF name \in DOMAIN p THEN p[name] ELSE default
\* the least number of arguments of a declaration
Least(p) == IF "mn" \in DOMAIN p THEN p.mn ELSE IF p.x = 1 THEN p.n ELSE 0
Parg(n, x, f, bs) == PargS(n, x, f, bs, 0)
AnyArgs(bs) == Parg(-1, 0, {}, bs)

CondFlags == {"COMMAND", "DEFINED", "EQUAL", "EXISTS", "GREATER", "LESS", "IS_ABSOLUTE", "IS_DIRECTORY", "IS_NEWER_THAN",
  "IS_SYMLINK", "MATCHES", "NOT", "POLICY", "STRLESS", "STRGREATER", "STREQUAL", "TARGET", "TEST", "VERSION_EQUAL",
  "VERSION_GREATER", "VERSION_LESS"}

Keys(node) == {node.kw[k].k : k \in 1..Len(node.kw)}
Uppers(node) == {node.kw[k].u : k \in 1..Len(node.kw)}
KwOf(node, n) == node.kw[CHOOSE k \in 1..Len(node.kw) : node.kw[k].k = n].s
\* a single declaration which accepts any number is used again for the
\* positional arguments that come after keywords
StdFrame(node, bs) ==
  LET reuse == Len(node.p) = 1 /\ node.p[1].leg = 1 /\ node.p[1].x = 0
      all == UNION {UpFlags(node.p[k]) : k \in 1..Len(node.p)}
  IN F("std", bs) @@ [p |-> IF reuse THEN <<>> ELSE node.p, d |-> IF reuse THEN node.p[1] ELSE Star,
                      kb |-> bs \cup Uppers(node) \cup all, node |-> node, hw |-> AttrOf(node, "hs", -1), cl |-> 0]

KwParg(n, x, f) == [t |-> "pos", n |-> n, x |-> x, f |-> f]
ActKw == [t |-> "std", p |-> <<>>, kw |-> <<
  [k |-> "BYPRODUCTS", u |-> "BYPRODUCTS", s |-> KwParg(-1, 0, <<>>)], [k |-> "COMMAND", u |-> "COMMAND", s |-> Shell],
  [k |-> "COMMENT", u |-> "COMMENT", s |-> KwParg(1, 1, <<>>)], [k |-> "DEPENDS", u |-> "DEPENDS", s |-> KwParg(-1, 0, <<>>)],
  [k |-> "JOB_POOL", u |-> "JOB_POOL", s |-> KwParg(1, 1, <<>>)], [k |-> "SOURCES", u |-> "SOURCES", s |-> KwParg(-1, 0, <<>>)],
  [k |-> "WORKING_DIRECTORY", u |-> "WORKING_DIRECTORY", s |-> KwParg(1, 1, <<>>)]>>]
ActFlags == {"VERBATIM", "USES_TERMINAL", "COMMAND_EXPAND_LISTS"}
InstKw == [t |-> "std", p |-> <<>>, kw |-> <<
  [k |-> "TARGETS", u |-> "TARGETS", s |-> KwParg(-1, 0, <<>>)], [k |-> "EXPORT", u |-> "EXPORT", s |-> KwParg(1, 1, <<>>)],
  [k |-> "INCLUDES", u |-> "INCLUDES", s |-> KwParg(-1, 0, <<"DESTINATION">>)],
  [k |-> "DESTINATION", u |-> "DESTINATION", s |-> KwParg(1, 1, <<>>)],
  [k |-> "PERMISSIONS", u |-> "PERMISSIONS", s |-> KwParg(-1, 0, <<>>)],
  [k |-> "CONFIGURATIONS", u |-> "CONFIGURATIONS", s |-> KwParg(-1, 0, <<>>)],
  [k |-> "COMPONENT", u |-> "COMPONENT", s |-> KwParg(1, 1, <<>>)],
  [k |-> "NAMELINK_COMPONENT", u |-> "NAMELINK_COMPONENT", s |-> KwParg(1, 1, <<>>)]>>]
InstFlags == {"OPTIONAL", "EXCLUDE_FROM_ALL", "NAMELINK_ONLY", "NAMELINK_SKIP"}
Designated == {"ARCHIVE", "LIBRARY", "RUNTIME", "OBJECTS", "FRAMEWORK", "BUNDLE", "PRIVATE_HEADER", "PUBLIC_HEADER", "RESOURCE"}
SetKw == [t |-> "std", p |-> <<>>, kw |-> <<[k |-> "CACHE", u |-> "CACHE", s |-> KwParg(-1, 0, <<"FORCE">>) @@ [mn |-> 2]]>>]
InKw == [t |-> "std", p |-> <<>>, kw |-> <<[k |-> "LISTS", u |-> "LISTS", s |-> KwParg(-1, 0, <<>>)],
                                           [k |-> "ITEMS", u |-> "ITEMS", s |-> KwParg(-1, 0, <<>>)]>>]

\* the frames a node opens (none, or one)
RECURSIVE Frames(_, _)
Frames(node, bs) ==
  IF node.t = "std" THEN <<StdFrame(node, bs)>>
  ELSE IF node.t = "pos"
    THEN <<[PargS(node.n, node.x, Range(node.f), bs, IF "so" \in DOMAIN node THEN node.so ELSE 0) EXCEPT !.mn = Least(node)]>>
  ELSE IF node.t = "null" THEN <<>>
  ELSE IF node.t = "tuple" THEN <<F("tuple", bs) @@ [n |-> node.n, nt |-> node.nt, f |-> Range(node.f)]>>
  ELSE IF node.t = "disp"
    THEN LET d == TokAt(i + node.i)
             hit == {k \in 1..Len(node.map) : node.map[k].u = d.u}
         IN Frames(IF d.k = "end" THEN node.none
                   ELSE IF d.k # "w" THEN IF d.k = ")" /\ "rp" \in DOMAIN node THEN node.rp ELSE node.els
                   ELSE IF d.d = 1 THEN node.deref ELSE IF hit # {} THEN node.map[CHOOSE k \in hit : TRUE].s ELSE node.els, bs)
  ELSE <<F(node.t, bs)>>

\* What is recorded when a group is opened: a positional group is P, or S if
\* it may be sorted: it is declared so, or the comment before its first
\* argument says so (U: an annotation where nothing is documented).
Annotated == {"std", "kw", "set", "foreachstd", "foreachin", "lib_object", "file_write"}
GroupCode(s2, k) ==
  LET fr == s2[k]
      \* (the annotation stands after a keyword without arguments)
      bare == Len(ev) >= 2 /\ ev[Len(ev)] = ">" /\ ev[Len(ev) - 1] = "k"
  IN CASE fr.t = "parg" -> IF T.g # 0 /\ ~bare /\ T.n # "PARENT_SCOPE" /\ (k = 1 \/ s2[k - 1].t \in Annotated) THEN IF T.g = 1 THEN "S" ELSE "P"
                           ELSE IF T.g # 0 THEN "U" ELSE IF fr.so = 1 THEN "S" ELSE "P"
       [] fr.t = "source" -> IF fr.so = 1 THEN "S" ELSE "P"
       [] fr.t \in {"tupleparg", "flaggroup", "name"} -> IF T.g # 0 THEN "U" ELSE "P"
       [] fr.t = "kw" -> "K" [] fr.t = "paren" -> "G" [] OTHER -> "A"
Limits(fr) == (IF AttrOf(fr, "hw", -1) >= 0 THEN "/" \o ToString(fr.hw) ELSE "") \o (IF AttrOf(fr, "cl", 0) = 1 THEN "!" ELSE "")
\* (the limits of a group are only observed by C18)
OpenCode(s2, k) == IF "lm" \in DOMAIN K THEN GroupCode(s2, k) \o Limits(s2[k]) ELSE GroupCode(s2, k)
Top == stk[Len(stk)]
Below == SubSeq(stk, 1, Len(stk) - 1)
AllOpen(s) == SubSeq([k \in 1..Len(s) |-> [s[k] EXCEPT !.o = TRUE]], 1, Len(s))

\* the elementary moves
Go(s2) == stk' = s2 /\ UNCHANGED <<c, i, ev, st>>
Pop == /\ stk' = Below
       /\ ev' = IF Top.o THEN Append(ev, ">") ELSE ev
       /\ UNCHANGED <<c, i, st>>
Push(fr, top2) == Go(Append(Append(Below, top2), fr))
\* consume the next token in role r; s2 is the stack afterwards, whose last
\* frame may be new: everything that is not yet recorded as open is now
Eat(role, s2) ==
  LET n == {k \in 1..Len(s2) : ~s2[k].o}
      lo == Len(s2) - Cardinality(n)
      ops == SubSeq([k \in 1..Cardinality(n) |-> OpenCode(s2, lo + k)], 1, Cardinality(n))
  IN /\ ev' = (ev \o ops) \o <<role>>
     /\ stk' = AllOpen(s2) /\ i' = i + 1
     /\ UNCHANGED <<c, st>>
Counted == Append(Below, [Top EXCEPT !.cnt = @ + 1])
\* open a keyword group: the keyword, and then the frames of its node
Keyword(node, bs, top2) ==
  LET s2 == AllOpen(Append(Append(Below, top2), F("kw", bs)))
      base == Append(Append(Below, top2), F("kw", bs))
      n == {k \in 1..Len(base) : ~base[k].o}
      lo == Len(base) - Cardinality(n)
      ops == SubSeq([k \in 1..Cardinality(n) |-> OpenCode(base, lo + k)], 1, Cardinality(n))
  IN /\ ev' = (ev \o ops) \o <<"k">>
     /\ i' = i + 1
     \* the node is opened on the tokens after the keyword
     /\ stk' = s2 \o (IF node.t = "disp" THEN <<>> ELSE Frames(node, bs))
     /\ UNCHANGED <<c, st>>

\* open a parenthetical group
Keyparen == Eat("(", Append(stk, F("paren", {})))

\* (an annotation which may belong to the list that ends or to the next one)
OpensKeyword == \E k \in 1..Len(stk) : stk[k].t = "std" /\ T.n \in Keys(stk[k].node) /\ T.u \notin stk[k].bs
StepParg ==
  IF Top.n >= 0 /\ Top.cnt >= Top.n THEN Pop
  ELSE IF Break(Top.bs) /\ (Top.x = 0 \/ T.k = ")")
    THEN IF T.g # 0 /\ Top.cnt > 0 /\ T.k = "w" /\ ~OpensKeyword THEN Decide("skip-annotation", i) ELSE Pop
  ELSE IF Break(Top.bs) /\ T.m = 1 THEN Decide("skip-comment", i)
  ELSE IF T.k = "(" THEN Keyparen
  ELSE Eat(IF T.n \in Top.f THEN "f" ELSE "a", Counted)

StepStd ==
  LET node == Top.node
      keys == Keys(node)
      head == IF Len(Top.p) > 0 THEN Top.p[1] ELSE Top.d
      exact == head.x = 1 /\ head.n # 0 /\ T.k # ")"
      later == IF Len(Top.p) > 0 THEN Tail(Top.p) ELSE <<>>
      other == UNION {UpFlags(later[k]) : k \in 1..Len(later)} \ UpFlags(head)
      bs2 == (Top.bs \cup Uppers(node)) \cup other
  IN IF Break(Top.bs) /\ ~exact
       THEN IF T.g # 0 /\ T.k = "w" /\ ~OpensKeyword THEN Decide("skip-annotation", i) ELSE Pop
     ELSE IF Break(Top.bs) /\ T.m = 1 THEN Decide("skip-comment", i)
     ELSE IF T.n # "" /\ T.n \in keys THEN Keyword(KwOf(node, T.n), Top.kb, Top)
     ELSE IF Len(Top.p) = 0 /\ head.n = 0 THEN Decide("skip-zero", i)
     ELSE Push([PargS(head.n, head.x, Range(head.f), bs2, head.so) EXCEPT !.mn = Least(head), !.hw = AttrOf(head, "hw", -1), !.cl = AttrOf(head, "cl", 0)], [Top EXCEPT !.p = later])

StepCond ==
  LET bs2 == Top.bs \cup {"AND", "OR"}
  IN IF Break(Top.bs) THEN Pop
     ELSE IF T.k = "(" THEN Keyparen
     ELSE IF T.n \in {"AND", "OR"} THEN Keyword([t |-> "cond"], bs2, Top)
     ELSE Push(Parg(-1, 0, CondFlags, bs2), Top)

StepParen == IF Top.cnt = 0 THEN Push(F("cond", {}), [Top EXCEPT !.cnt = 1])
             ELSE IF Top.cnt = 1
               THEN IF T.k = ")" THEN Eat(")", Append(Below, [Top EXCEPT !.cnt = 2])) ELSE Decide("skip-unbalanced", i)
             ELSE Pop

StepTuple == IF Top.n >= 0 /\ Top.cnt >= Top.n THEN Pop
             ELSE IF Break(Top.bs) THEN Pop
             ELSE Push(F("tupleparg", Top.bs) @@ [nt |-> Top.nt, f |-> Top.f, mn |-> Top.nt], [Top EXCEPT !.cnt = @ + 1])
StepTuplePart == IF Top.cnt >= Top.nt \/ Break(Top.bs) THEN Pop
                 ELSE IF T.k = "(" THEN Decide("skip-paren", i)
                 ELSE Eat(IF T.n \in Top.f THEN "f" ELSE "a", Counted)

\* (su: arguments where none are expected)
Surplus(bs) == AnyArgs(bs) @@ [su |-> 1]
StepEmpty == IF Break(Top.bs) THEN Pop ELSE Push(Surplus(Top.bs), Top)

Next1 == [Top EXCEPT !.cnt = 1]
\* the variables whose values are a command line: *_COMMAND and those of the
\* configured patterns (l: literal, a: anywhere or at the start)
VarTags == <<[l |-> "_COMMAND", a |-> 1]>> \o (IF "vt" \in DOMAIN K THEN K.vt ELSE <<>>)
IsCmdVar(u) == \E k \in 1..Len(VarTags) : \E j \in 1..(Len(u) - Len(VarTags[k].l) + 1) :
                 (VarTags[k].a = 1 \/ j = 1) /\ SubSeq(u, j, j + Len(VarTags[k].l) - 1) = VarTags[k].l
StepSet ==
  LET cache == Top.bs \cup {"CACHE"}
      both == Top.bs \cup {"CACHE", "PARENT_SCOPE"}
  IN IF Top.cnt = 0
       THEN Push(Parg(1, 1, {"PARENT_SCOPE"}, cache), [nm |-> T.u] @@ Next1)
     ELSE IF Break(Top.bs) THEN Pop
     ELSE IF T.n = "CACHE" THEN Keyword(KwOf(SetKw, "CACHE"), both, Top)
     ELSE IF T.n = "PARENT_SCOPE" THEN Push(Parg(-1, 0, {"PARENT_SCOPE"}, cache), Top)
     ELSE Push([cl |-> IF IsCmdVar(Top.nm) THEN 1 ELSE 0] @@ AnyArgs(both), Top)

StepForeachStd == IF Top.cnt = 0
                    THEN Push(Parg(1, 1, {}, Top.bs), Next1)
                  ELSE IF Top.cnt = 1
                    THEN Push(AnyArgs(Top.bs), [Top EXCEPT !.cnt = 2])
                  ELSE Pop
StepForeachIn ==
  LET bs2 == Top.bs \cup {"LISTS", "ITEMS"}
  IN IF Top.cnt = 0 THEN Push(Parg(2, 1, {"IN"}, Top.bs), Next1)
     ELSE IF Break(Top.bs) THEN Pop
     ELSE IF T.n \in {"LISTS", "ITEMS"} THEN Keyword(KwOf(InKw, T.n), bs2, Top)
     ELSE Push(AnyArgs(bs2), Top)
StepFileWrite == IF Top.cnt = 0 THEN Push(Parg(2, 1, {"WRITE", "APPEND"}, Top.bs), Next1)
                 ELSE IF Top.cnt = 1 THEN Push(AnyArgs(Top.bs), [Top EXCEPT !.cnt = 2])
                 ELSE Pop
StepLibObject == IF Top.cnt = 0 THEN Push(Parg(2, 1, {"OBJECT"}, Top.bs), Next1)
                 ELSE IF Break(Top.bs) THEN Pop
                 ELSE Push(AnyArgs(Top.bs), Top)

\* add_custom_target: name [ALL], first command, then keywords and flags
StepTarget ==
  LET keys == Keys(ActKw)
      bs2 == (Top.bs \cup keys) \cup ActFlags
  IN IF Break(Top.bs) THEN Pop
     ELSE IF Top.cnt = 0
       THEN Push(Parg(IF TokAt(i + 1).n = "ALL" THEN 2 ELSE 1, 1, {"ALL"}, bs2), Next1)
     ELSE IF Top.cnt = 1
       THEN IF T.n \in keys \cup ActFlags THEN Go(Append(Below, [Top EXCEPT !.cnt = 2]))
            ELSE Push(AnyArgs(bs2), [Top EXCEPT !.cnt = 2])
     ELSE IF T.n \in ActFlags THEN Push(F("flaggroup", Top.bs \cup keys), Top)
     ELSE IF T.n \in keys THEN Keyword(KwOf(ActKw, T.n), bs2, Top)
     ELSE Push(Surplus(bs2), Top)
StepFlagGroup == IF Break(Top.bs) \/ T.u \notin ActFlags THEN Pop
                 ELSE IF T.m = 1 /\ Top.cnt > 0 THEN Decide("skip-comment", i)
                 ELSE Eat("f", Counted)

StepInstall ==
  LET keys == Keys(InstKw)
      sub == (Top.bs \cup Designated) \cup {"INCLUDES"}
      kwb == ((Top.bs \cup keys) \cup Designated) \cup InstFlags
      posb == (Top.bs \cup keys) \cup Designated
  IN IF Break(Top.bs) THEN Pop
     ELSE IF T.n \in Designated THEN Keyword([t |-> "install_targets"], sub, Top)
     ELSE IF T.n \in keys THEN Keyword(KwOf(InstKw, T.n), kwb, Top)
     ELSE Push(Parg(-1, 0, InstFlags, posb), Top)

\* add_library and add_executable with sources: the name and what qualifies
\* it, then the sources
LibTypes == {"STATIC", "SHARED", "MODULE", "OBJECT"}
ExeFlags == {"WIN32", "MACOSX_BUNDLE", "EXCLUDE_FROM_ALL"}
\* The sources are sortable unless a variable may hide what they are, one of
\* them would turn into a keyword, or an annotation after the name says so.
LibWords == LibTypes \cup {"EXCLUDE_FROM_ALL", "UNKNOWN", "IMPORTED", "ALIAS", "INTERFACE"}
ExeWords == ExeFlags \cup {"IMPORTED", "ALIAS"}
SourcesSortable(lib, tg) ==
  /\ IF tg # 0 THEN tg = 1 ELSE K.t[2].v = 0 /\ (lib => K.t[3].v = 0)
  /\ \A k \in i..Len(K.t) : K.t[k].n \notin (IF lib THEN LibWords ELSE ExeWords)
StepSources(lib) == IF T.k = ")" THEN Pop
                    ELSE IF Top.cnt = 0 THEN Push(F("name", Top.bs) @@ [lib |-> lib], Next1 @@ [tg |-> 0])
                    ELSE Push(F("source", Top.bs) @@ [so |-> IF SourcesSortable(lib, Top.tg) THEN 1 ELSE 0], Top)
\* cnt counts the name, the place of the type and the place of the flag
StepName == IF T.k = ")" THEN Pop
            ELSE IF T.k = "(" THEN Decide("skip-paren", i)
            ELSE IF Top.cnt > 0 /\ T.g # 0 /\ stk[Len(stk) - 1].tg # T.g
              THEN Go(Append([Below EXCEPT ![Len(Below)].tg = T.g], Top))
            ELSE IF Top.cnt = 0 THEN Eat("a", Counted)
            ELSE IF Top.lib
              THEN IF Top.cnt = 1
                     THEN IF T.n \in LibTypes THEN Eat("f", Counted) ELSE Go(Counted)
                   ELSE IF Top.cnt = 2
                     THEN IF T.n = "EXCLUDE_FROM_ALL" THEN Eat("f", Counted) ELSE Go(Counted)
                   ELSE Pop
            ELSE IF T.n \in ExeFlags THEN Eat("f", Counted) ELSE Pop
StepSource == IF T.k = ")" THEN Pop
              ELSE IF T.k = "(" THEN Decide("skip-paren", i)
              ELSE Eat("a", Counted)

Step == CASE Top.t = "parg" -> StepParg
          [] Top.t = "std" -> StepStd
          [] Top.t = "kw" -> Pop
          [] Top.t = "cond" -> StepCond
          [] Top.t = "paren" -> StepParen
          [] Top.t = "tuple" -> StepTuple
          [] Top.t = "tupleparg" -> StepTuplePart
          [] Top.t = "empty" -> StepEmpty
          [] Top.t = "set" -> StepSet
          [] Top.t = "foreachstd" -> StepForeachStd
          [] Top.t = "foreachin" -> StepForeachIn
          [] Top.t = "file_write" -> StepFileWrite
          [] Top.t = "lib_object" -> StepLibObject
          [] Top.t = "add_custom_target" -> StepTarget
          [] Top.t = "flaggroup" -> StepFlagGroup
          [] Top.t = "install_targets" -> StepInstall
          [] Top.t = "lib_std" -> StepSources(TRUE)
          [] Top.t = "exe_std" -> StepSources(FALSE)
          [] Top.t = "name" -> StepName
          [] Top.t = "source" -> StepSource
          [] OTHER -> Decide("skip-unknown-node", i)

\* the role of each argument read so far: argument, keyword, flag, parenthesis
Roles == SelectSeq(ev, LAMBDA e : e \in {"a", "k", "f", "(", ")"})
=============================================================================
