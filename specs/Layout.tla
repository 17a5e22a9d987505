-------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* C09, C10.  The layout machine.  The tree of a listfile (bodies, blocks, *)
(* comments, statements with their nested argument groups) is laid out     *)
(* element by element; a statement is tried pass by pass, and within it    *)
(* every node advances through its own passes up to the one of its parent, *)
(* until its layout is admissible.  The layout says on which row and       *)
(* column every piece of text starts; the recorded output is read against  *)
(* it, piece by piece (Spec, C09), or line by line for its width (Width,   *)
(* C10).                                                                   *)
(*                                                                         *)
(* Case: els the elements of the file, d depth and m node ({ and } for the  *)
(* ends of a body); y what formatting gave, valid whether it reported an        *)
(* admissible layout, err.  Nodes of a tree: t kind, x text, c children,   *)
(* n newlines of blank space, own limit of arguments / groups (-1 none),    *)
(* or 1: the text goes over several lines;                                 *)
(* f 1: arguments of a command line, or explicit trailing comment, or      *)
(* blank space at the start; first 1: first comment of the file, ls lines  *)
(* of a comment.                                                           *)
(* Options o: see MarkupLines; tab, sub/pargs/rows/lines: max_subgroups_,  *)
(* max_pargs_hwrap, max_rows_cmdline, max_lines_hwrap; minp/maxp prefix    *)
(* characters; sfn/sctl space after the name; dp dangle_parens; da         *)
(* dangle_align; aw always_wrap; tabs 0 none 1 use-space 2 round-up;       *)
(* passes: stmt, args, pargs, kw, paren.                                   *)
(***************************************************************************)
EXTENDS MarkupLines, FiniteSets

\* i: elements taken; seen: something of the body was laid out; pass: of the
\* statement; row: the next free row of the file; lay: its layout; k, q, wr, wc:
\* pieces written, position in the output, row and column of the writer;
\* good: every layout so far was admissible
VARIABLES st, i, seen, pass, row, lay, k, q, wr, wc, good
vars == <<c, st, i, seen, pass, row, lay, k, q, wr, wc, good>>
Y == Cases[c].y
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ st' = "done" /\ UNCHANGED <<c, i, seen, pass, row, lay, k, q, wr, wc, good>>

\* ---------------------------------------------------------------- the tree
Scalar == {"name", "arg", "kw", "flag", "at"}
\* what is laid out of a tree: short blank space and groups without arguments are not
RECURSIVE Kept(_)
KeptOf(cs) == LET F[j \in 0..Len(cs)] == IF j = 0 THEN <<>>
                     ELSE IF cs[j].t = "blank" /\ (cs[j].n < 2 \/ cs[j].f = 1) THEN F[j - 1]
                     ELSE LET m == Kept(cs[j]) IN IF m.t = "pargs" /\ m.c = <<>> THEN F[j - 1] ELSE Append(F[j - 1], m)
              IN F[Len(cs)]
Kept(m) == [m EXCEPT !.c = KeptOf(m.c)]

IsLineComment(m) == m.t = "lc"
IsCom(m) == m.t \in {"lc", "bc"}
RECURSIVE EndsInComment(_)
EndsInComment(m) ==
  CASE m.t \in Scalar -> m.c # <<>> /\ m.c[1].t = "lc"
    [] m.t = "switch" -> TRUE
    [] m.t \in {"pargs", "args", "kwgroup"} -> m.c # <<>> /\ (IsCom(m.c[Len(m.c)]) \/ EndsInComment(m.c[Len(m.c)]))
    [] m.t = "paren" -> m.c[Len(m.c)].t = "lc"
    [] OTHER -> FALSE
\* line comments and arguments after which the line is over
Ends(m) == IsLineComment(m) \/ EndsInComment(m)
Count(cs, Of(_)) == LET F[j \in 0..Len(cs)] == IF j = 0 THEN 0 ELSE F[j - 1] + (IF Of(cs[j]) THEN 1 ELSE 0) IN F[Len(cs)]
IsArgument(m) == ~IsCom(m)
IsGroup(m) == m.t \in {"kwgroup", "pargs", "paren"}

\* ------------------------------------------------------------------- leaves
\* a layout: r, c where the next character would be; e first column right of
\* everything; ok admissible; ps the pieces: r, c, x text, t kind
Lay(r, cc, e, ok, ps) == [r |-> r, c |-> cc, e |-> e, ok |-> ok, ps |-> ps, rows |-> 0]
Piece(r, cc, x, t) == [r |-> r, c |-> cc, x |-> x, t |-> t]
DropTrailing(t) ==  \* blanks before line ends
  LET F[j \in 0..Len(t)] == IF j = 0 THEN <<>> ELSE IF t[j] = LF THEN Append(RStrip(F[j - 1], Blank), LF) ELSE Append(F[j - 1], t[j]) IN F[Len(t)]
NoCR(t) == LET u == DropCR(t) IN SubSeq([j \in 1..Len(u) |-> IF u[j] = CR THEN LF ELSE u[j]], 1, Len(u))
\* the length of the last line
LastLine(t) == Len(t) + 1 - LineStart(t, Len(t) + 1)
Rows(t) == Count(t, LAMBDA ch : ch = LF)
\* text on one line
Line_(t, r, cc, kind) == Lay(r, cc + Len(t), cc + Len(t), TRUE, <<Piece(r, cc, t, kind)>>)
\* text that may go over several lines
RECURSIVE Widest(_, _, _, _)
Widest(t, a, col, w) == LET b == FindIn(t, a, {LF}) n == Max(w, col + b - a) IN IF b > Len(t) THEN n ELSE Widest(t, b + 1, 0, n)
Text_(t, r, cc, kind) ==
  LET n == Rows(t) IN
  IF n = 0 THEN Lay(r, cc + Len(t), cc + Len(t), TRUE, <<Piece(r, cc, t, kind)>>)
  ELSE Lay(r + n, LastLine(t), Widest(t, 1, cc, 0), TRUE, <<Piece(r, cc, t, kind)>>)
LongestLine(ls) == LET F[j \in 0..Len(ls)] == IF j = 0 THEN 0 ELSE Max(F[j - 1], Len(ls[j])) IN F[Len(ls)]
Comment_(m, r, cc) ==
  IF m.t = "bc" THEN Text_(DropTrailing(NoCR(m.x)), r, cc, m.t)
  ELSE LET ls == Lines_([ls |-> m.ls, first |-> m.first = 1, expl |-> m.f = 1], cc)
           n == Len(ls)
       IN Lay(r + n - 1, cc + Len(ls[n]), cc + LongestLine(ls), TRUE, SubSeq([j \in 1..n |-> Piece(r + j - 1, cc, ls[j], m.t)], 1, n))

\* --------------------------------------------------------------- admissible
W == O.lw
Fits(l) == l.e <= W
Short(l, r) == l.r - r <= O.lines
Marked(path) == O.aw # <<>> /\ \E j \in 1..Len(O.aw) : O.aw[j] = path
\* at: one pass of node m that starts at r, cc (see below)
Slash == <<47>>

\* ------------------------------------------------------------------- groups
RECURSIVE Reflow(_, _, _, _, _, _), Try(_, _, _, _, _, _, _), Pargs(_, _, _, _, _, _, _), Args(_, _, _, _, _, _, _, _), Paren(_, _, _, _, _, _, _)

Passes(m) == CASE m.t = "pargs" -> O.passes.pargs [] m.t = "args" -> O.passes.args [] m.t = "kwgroup" -> O.passes.kw
               [] m.t = "paren" -> O.passes.paren [] OTHER -> <<<<0, 0>>>>
Sub(path, name) == IF O.aw = <<>> THEN path ELSE path \o Slash \o name
ParenName == Cp("ParenGroupNode")
\* the name of a group of positional arguments: its number among its siblings
PargName(cs, j) == Cp("PargGroupNode[") \o Dec(Count(SubSeq(cs, 1, j - 1), LAMBDA m : m.t = "pargs")) \o <<93>>
PathOf(path, cs, j) == IF O.aw = <<>> THEN path
                       ELSE CASE cs[j].t = "pargs" -> path \o Slash \o PargName(cs, j)
                              [] cs[j].t = "paren" -> path \o Slash \o ParenName
                              [] cs[j].t = "kwgroup" -> path \o Slash \o ToUpper(cs[j].c[1].x)
                              [] OTHER -> path

\* the pass after the j-th that can give another layout (the leaves have one each)
Flat_(m) == m.t = "pargs" /\ \A j \in 1..Len(m.c) : m.c[j].t \in Scalar \cup {"lc", "bc"}
RECURSIVE NextTry(_, _, _)
NextTry(m, j, wrap) == IF j < Len(Passes(m)) /\ Flat_(m) /\ (m.f = 1 \/ (Passes(m)[j + 1][2] = 1) = wrap) THEN NextTry(m, j + 1, wrap) ELSE j + 1

\* node m at row r, column cc while its parent is in pass pp; last: the closing
\* parenthesis of the statement comes next; path: names of the groups around
Reflow(m, r, cc, pp, last, path) == Try(m, r, cc, pp, last, path, 1)
Try(m, r, cc, pp, last, path, j) ==
  LET no == Passes(m)[j][1]
      want == Passes(m)[j][2] = 1
      wrap == CASE m.t = "pargs" -> want /\ m.f = 0
                [] m.t = "kwgroup" -> want /\ Len(m.c[1].x) > O.minp
                [] OTHER -> want
      start == Lay(r, cc, cc, TRUE, <<>>)
      l == CASE m.t \in Scalar ->
                  LET t == IF m.n = 1 THEN Text_(NoCR(m.x), r, cc, m.t) ELSE Line_(m.x, r, cc, m.t) IN
                  IF m.c = <<>> THEN t
                  ELSE LET u == Reflow(m.c[1], t.r, t.c + 1, 0, FALSE, path)
                       IN [u EXCEPT !.e = Max(t.e, u.e), !.ps = t.ps \o u.ps]
             [] IsCom(m) -> Comment_(m, r, cc)
             [] m.t = "switch" -> Line_(m.x, r, cc, m.t)
             [] m.t \in {"(", ")"} -> Line_(m.x, r, cc, m.t)
             [] m.t = "pargs" ->
                  LET u == Pargs(m, 1, [start EXCEPT !.rows = 1], wrap, no, last, path)
                      n == Count(m.c, IsArgument)
                      most == IF m.n >= 0 THEN m.n ELSE O.pargs
                  IN [u EXCEPT !.ok = @ /\ (IF m.f = 1 THEN u.rows <= O.rows ELSE (n > most => wrap))]
             [] m.t = "args" ->
                  LET u == Args(m, 1, start, r, wrap, no, last, path)
                      most == IF m.n >= 0 THEN m.n ELSE O.sub
                  IN [u EXCEPT !.ok = @ /\ (Count(m.c, IsGroup) > most => wrap)]
             [] m.t = "paren" -> Paren(m, 1, start, r, wrap, no, last)
             [] m.t = "kwgroup" ->
                  LET a == Reflow(m.c[1], r, cc, no, FALSE, path) IN
                  IF Len(m.c) = 1 THEN a
                  ELSE LET b == IF wrap THEN Reflow(m.c[2], a.r + 1, cc + O.tab, no, last, PathOf(path, m.c, 2))
                                ELSE Reflow(m.c[2], a.r, a.c + 1, no, last, PathOf(path, m.c, 2))
                       IN [b EXCEPT !.ok = @ /\ a.ok, !.e = Max(a.e, b.e), !.ps = a.ps \o b.ps]
      admissible == /\ l.ok /\ Fits(l)
                    /\ wrap \/ (IF m.t = "kwgroup" THEN l.r - r <= 1 \/ Len(m.c[1].x) <= O.maxp
                                ELSE (IsCom(m) \/ Short(l, r)) /\ (m.t \in {"pargs", "args", "paren"} => ~Marked(path)))
      res == [l EXCEPT !.ok = admissible]
      nxt == NextTry(m, j, wrap)
  IN IF admissible \/ nxt > Len(Passes(m)) \/ Passes(m)[nxt][1] > pp THEN res ELSE Try(m, r, cc, pp, last, path, nxt)

\* positional arguments from the j-th on; s: the layout so far (its start column
\* is that of the group, s.ps[1]); rows counts its rows
Join(s, l) == [l EXCEPT !.ok = s.ok /\ l.ok, !.e = Max(s.e, l.e), !.ps = s.ps \o l.ps, !.rows = s.rows]
Col0(s, first) == IF s.ps = <<>> THEN first ELSE s.ps[1].c
Pargs(m, j, s, wrap, no, last, path) ==
  IF j > Len(m.c) THEN s
  ELSE LET m1 == m.c[j]
           final == last /\ j = Len(m.c)
           cc == Col0(s, s.c)
           fresh == j > 1 /\ (Ends(m.c[j - 1]) \/ wrap)
           r0 == IF fresh THEN s.r + 1 ELSE s.r
           c0 == IF j = 1 THEN s.c ELSE IF fresh THEN cc ELSE s.c + 1
           l == Reflow(m1, r0, c0, no, final, path)
           over == /\ j > 1 /\ ~fresh
                   /\ \/ l.e > W
                      \/ last /\ l.c + 1 > W
                      \/ m.c[j - 1].t \in Scalar /\ IsCom(m1) /\ m1.n # 1
           l2 == IF over THEN Reflow(m1, r0 + 1, cc, no, final, path) ELSE l
           s2 == Join(s, l2)
       IN Pargs(m, j + 1, [s2 EXCEPT !.rows = @ + (IF fresh \/ over THEN 1 ELSE 0)], wrap, no, last, path)

\* groups of arguments from the j-th on; row: the row of the current line
Args(m, j, s, row0, wrap, no, last, path) ==
  IF j > Len(m.c) THEN s
  ELSE LET m1 == m.c[j]
           final == last /\ j = Len(m.c)
           cc == Col0(s, s.c)
           fresh == j > 1 /\ (Ends(m.c[j - 1]) \/ wrap)
           r0 == IF fresh THEN row0 + 1 ELSE s.r
           c0 == IF j = 1 THEN s.c ELSE IF fresh THEN cc ELSE s.c + 1
           pth == PathOf(path, m.c, j)
           l == Reflow(m1, r0, c0, no, final, pth)
           over == /\ j > 1 /\ ~fresh /\ ~wrap
                   /\ \/ final /\ l.c + 1 > W
                      \/ l.e > W
                      \/ l.r - r0 > 1
           l2 == IF over THEN Reflow(m1, row0 + 1, cc, no, final, pth) ELSE l
       IN Args(m, j + 1, Join(s, l2), l2.r, wrap, no, last, path)

\* "(" arguments ")" and maybe a comment
Paren(m, j, s, row0, wrap, no, last) ==
  IF j > Len(m.c) THEN s
  ELSE LET m1 == m.c[j]
           final == last /\ j = Len(m.c)
           cc == Col0(s, s.c)
           fresh == j > 2 /\ (Ends(m.c[j - 1]) \/ wrap)
           r0 == IF fresh THEN s.r + 1 ELSE s.r
           c0 == IF fresh THEN cc ELSE IF j > 2 /\ m1.t # ")" THEN s.c + 1 ELSE s.c
           l == Reflow(m1, r0, c0, no, final, <<>>)
           over == /\ j > 1 /\ ~wrap /\ ~(m1.t = "args" /\ m1.c = <<>>)
                   /\ \/ final /\ l.c + 1 > W
                      \/ l.e > W
                      \/ ~l.ok
           l2 == IF over THEN Reflow(m1, row0 + 1, cc, no, final, <<>>) ELSE l
       IN Paren(m, j + 1, Join(s, l2), l2.r, wrap, no, last)

\* --------------------------------------------------------------- statements
Control == {Cp("if"), Cp("elseif"), Cp("else"), Cp("endif"), Cp("while"), Cp("endwhile"), Cp("foreach"), Cp("endforeach"),
            Cp("function"), Cp("endfunction"), Cp("macro"), Cp("endmacro")}
Spaced(name) == IF name \in Control THEN O.sctl = 1 ELSE O.sfn = 1
\* statement m at column cc of row 0: the j-th of its passes
Statement(m, cc, j) ==
  LET no == O.passes.stmt[j][1]
      name == ToLower(m.c[1].x)
      prefix == Len(name) + 1 + (IF Spaced(name) THEN 1 ELSE 0)
      wrap == O.passes.stmt[j][2] = 1 /\ prefix > O.minp /\ m.c[3].c # <<>>
      nm == Reflow(m.c[1], 0, cc, no, FALSE, name)
      lp == Reflow(m.c[2], 0, nm.c + (IF Spaced(name) THEN 1 ELSE 0), no, FALSE, name)
      a0 == IF wrap THEN cc + O.tab ELSE lp.c
      ar == Reflow(m.c[3], IF wrap THEN 1 ELSE 0, a0, no, TRUE, name)
      forced == O.dp = 1 /\ ar.r > 0
      full == ~forced /\ ar.c >= W
      dangle == forced \/ full \/ EndsInComment(m.c[3])
      dr == ar.r + 1
      dc == CASE O.da = "prefix" -> cc [] O.da = "prefix-indent" -> cc + O.tab [] O.da = "child" -> a0
      rp0 == Reflow(m.c[4], IF dangle THEN dr ELSE ar.r, IF dangle THEN dc ELSE ar.c, no, FALSE, name)
      ok0 == nm.ok /\ lp.ok /\ ar.ok /\ rp0.ok /\ (full => wrap)
      e0 == Max(Max(nm.e, lp.e), ar.e)
      ps0 == nm.ps \o lp.ps \o ar.ps
      whole == IF Len(m.c) = 4 THEN Lay(rp0.r, rp0.c, Max(e0, rp0.e), ok0, ps0 \o rp0.ps)
               ELSE \* a comment after the parenthesis
                 LET com == m.c[5]
                     c1 == Reflow(com, rp0.r, rp0.c + 1, no, FALSE, name)
                     again == ~dangle /\ c1.e > W
                     rp1 == IF again THEN Reflow(m.c[4], dr, dc, no, FALSE, name) ELSE rp0
                     \* the column is the one after the parenthesis, without a blank
                     c2 == IF again THEN Reflow(com, rp1.r, rp1.c, no, FALSE, name) ELSE c1
                     below == c2.e > W
                     c3 == IF below THEN Reflow(com, rp1.r + 1, cc, no, FALSE, name) ELSE c2
                     rp == IF below THEN rp0 ELSE rp1
                 IN Lay(c3.r, c3.c, Max(Max(e0, c3.e), rp.e), ok0 /\ rp1.ok /\ c3.ok, ps0 \o rp.ps \o c3.ps)
      admissible == whole.ok /\ Fits(whole) /\ (wrap \/ whole.r <= 1 \/ prefix <= O.maxp)
  IN [whole EXCEPT !.ok = admissible]

\* @WORD@ with or without a comment
AtWord(m, cc) ==
  LET a == Reflow(m.c[1], 0, cc, 0, FALSE, <<>>) IN
  LET l == IF Len(m.c) = 1 THEN a
           ELSE LET c1 == Reflow(m.c[2], a.r, a.c + 1, 0, FALSE, <<>>)
                    c2 == IF c1.e > W THEN Reflow(m.c[2], a.r + 1, cc, 0, FALSE, <<>>) ELSE c1
                IN [c2 EXCEPT !.ok = a.ok /\ c2.ok, !.e = Max(a.e, c2.e), !.ps = a.ps \o c2.ps]
  IN [l EXCEPT !.ok = @ /\ Fits(l) /\ Short(l, 0)]

\* -------------------------------------------------------------- transitions
Empty == Lay(0, 0, 0, TRUE, <<>>)
Init == /\ c \in 1..Len(Cases) /\ st = "next" /\ pass = 1 /\ row = 0 /\ lay = Empty /\ k = 0 /\ q = 1 /\ wr = 0 /\ wc = 0 /\ good = TRUE
        /\ i = 0 /\ seen = FALSE
M == Kept(Cases[c].els[i].m)
Column0 == Cases[c].els[i].d * O.tab

\* takes the next element
Take ==
  /\ st = "next"
  /\ IF Cases[c].err # <<>> THEN Decide("failed", 0)
     ELSE IF i = Len(Cases[c].els) THEN st' = "end" /\ UNCHANGED <<c, i, seen, pass, row, lay, k, q, wr, wc, good>>
     ELSE LET m == Cases[c].els[i + 1].m IN
          /\ i' = i + 1 /\ pass' = 1
          /\ UNCHANGED <<c, lay, k, q, wr, wc, good>>
          /\ CASE m.t = "{" -> seen' = FALSE /\ UNCHANGED <<st, row>>
               [] m.t = "}" -> seen' = TRUE /\ row' = (IF seen THEN row ELSE row + 1) /\ UNCHANGED st  \* an empty body takes a row
               [] m.t = "blank" -> IF m.n < 2 \/ m.f = 1 THEN UNCHANGED <<seen, row, st>> ELSE seen' = TRUE /\ row' = row + 1 /\ UNCHANGED st
               [] OTHER -> st' = "layout" /\ seen' = TRUE /\ UNCHANGED row

Place == /\ st = "layout" /\ st' = "try"
         /\ lay' = (CASE M.t = "stmt" -> Statement(M, Column0, pass) [] M.t = "atstmt" -> AtWord(M, Column0) [] OTHER -> Reflow(M, 0, Column0, 0, FALSE, <<>>))
         /\ UNCHANGED <<c, i, seen, pass, row, k, q, wr, wc, good>>
\* the layout of the statement in the current pass is not admissible
Last == Cases[c].els[i].m.t # "stmt" \/ pass = Len(O.passes.stmt)
NextPass == /\ st = "try" /\ ~lay.ok /\ ~Last
            /\ pass' = pass + 1 /\ st' = "layout"
            /\ UNCHANGED <<c, i, seen, row, lay, k, q, wr, wc, good>>
Accept == /\ st = "try" /\ (lay.ok \/ Last)
          /\ st' = "write"
          /\ UNCHANGED <<c, i, seen, pass, row, lay, k, q, wr, wc, good>>

\* blanks at the start of a line
Tabs(n) == IF O.tabs = 0 THEN Rep(SP, n)
           ELSE Rep(TAB, n \div O.tab) \o (IF n % O.tab = 0 THEN <<>> ELSE IF O.tabs = 1 THEN Rep(SP, n % O.tab) ELSE <<TAB>>)
Written(p) ==
  LET r == row + p.r IN
  Rep(LF, r - wr) \o (IF r > wr \/ wc = 0 THEN Tabs(p.c - (IF r > wr THEN 0 ELSE wc)) ELSE Rep(SP, p.c - wc))
AnyCase == {"name", "kw", "flag"}
\* the next piece of text, at its row and column
Write ==
  /\ st = "write" /\ k < Len(lay.ps)
  /\ LET p == lay.ps[k + 1]
         gap == Written(p)
         a == q + Len(gap)
         got == SubSeq(Y, a, a + Len(p.x) - 1)
         r == row + p.r
         n == Rows(p.x)
     IN IF ~HasAt(Y, q, gap) THEN Decide("misplaced", q)
        ELSE IF got # p.x /\ ~(p.t \in AnyCase /\ SameNoCase(got, p.x)) THEN Decide("misplaced-text", a)
        ELSE /\ k' = k + 1 /\ q' = a + Len(p.x)
             /\ wr' = r + n
             /\ wc' = (IF n = 0 THEN p.c + Len(p.x) ELSE LastLine(p.x))
             /\ UNCHANGED <<c, st, i, seen, pass, row, lay, good>>
Advance == /\ st = "write" /\ k = Len(lay.ps)
           /\ st' = "next" /\ row' = row + lay.r + 1 /\ k' = 0 /\ good' = (good /\ lay.ok) /\ lay' = Empty
           /\ UNCHANGED <<c, i, seen, pass, q, wr, wc>>
End == /\ st = "end"
       /\ Decide(IF SubSeq(Y, q, Len(Y)) # <<LF>> THEN "output-goes-on" ELSE IF good # (Cases[c].valid = 1) THEN "admissible-differs" ELSE "ok", q)

Next == Take \/ Place \/ NextPass \/ Accept \/ Write \/ Advance \/ End

\* ------------------------------------------------------- C10: lines too wide
\* the passes end with everything wrapped
Fixed ==
  O.passes.stmt[Len(O.passes.stmt)] = <<5, 1>> /\ O.passes.kw[Len(O.passes.kw)] = <<5, 1>> /\ O.passes.args[Len(O.passes.args)] = <<5, 1>>
  /\ O.passes.pargs[Len(O.passes.pargs)][2] = 1
EndRow(p) == p.r + Rows(p.x)
\* the length of the n-th line from a on
RECURSIVE LineOf(_, _, _)
LineOf(t, a, n) == LET b == FindIn(t, a, {LF}) IN IF n = 0 THEN b - a ELSE LineOf(t, b + 1, n - 1)
\* widths of the rows that a piece covers
PieceWidth(p, r) == IF r < p.r \/ r > EndRow(p) THEN 0
                    ELSE (IF r = p.r THEN p.c ELSE 0) + LineOf(p.x, 1, r - p.r)
RowWidth(l, r) == LET F[j \in 0..Len(l.ps)] == IF j = 0 THEN 0 ELSE Max(F[j - 1], PieceWidth(l.ps[j], r)) IN F[Len(l.ps)]
WideRows(l) == {r \in 0..l.r : RowWidth(l, r) > W}
OnRow(l, r, kinds) == {j \in 1..Len(l.ps) : l.ps[j].r = r /\ l.ps[j].t \in kinds}
\* on a line that is too wide is one argument, after a name or keyword only if
\* nothing may be wrapped after such a short one
Single(l) ==
  \A r \in WideRows(l) :
    LET args == OnRow(l, r, {"arg", "flag"}) IN
    /\ Cardinality(args) <= 1
    /\ args # {} /\ OnRow(l, r, {"lc", "bc"}) = {} =>
         /\ \A j \in OnRow(l, r, {"kw"}) : j + 1 \in args => Len(l.ps[j].x) <= O.minp
         /\ \A j \in OnRow(l, r, {"name"}) : j + 2 \in args => Len(l.ps[j].x) + (IF Spaced(ToLower(l.ps[j].x)) THEN 2 ELSE 1) <= O.minp

\* the output from the statement that starts at s to its closing parenthesis
RECURSIVE StatementEnd(_, _)
StatementEnd(p, d) == LET e == NextEvent(Y, p) IN
  CASE e.k = "(" -> StatementEnd(e.e, d + 1)
    [] e.k = ")" -> IF d = 1 THEN e.e ELSE StatementEnd(e.e, d - 1)
    [] e.k \in {"eof", "bad"} -> 0
    [] OTHER -> StatementEnd(e.e, d)
RECURSIVE FirstName(_)
FirstName(p) == LET e == NextEvent(Y, p) IN IF IsComment(e) \/ (e.k = "u" /\ Chr(Y, e.s) = 64) THEN FirstName(e.e) ELSE e.s
LineEndAt(p) == FindIn(Y, p, {LF})
RECURSIVE WideLines(_, _)
\* the widths of the lines in a..b that are too wide, and where
WideLines(a, b) == IF a > b THEN {} ELSE LET e == LineEndAt(a) IN (IF e - a > W THEN {<<e - a, a>>} ELSE {}) \cup WideLines(e + 1, b)

\* a statement: each line of it that is too wide cannot be avoided
Measure ==
  /\ st = "write"
  /\ IF Cases[c].els[i].m.t # "stmt"
     THEN st' = "next" /\ good' = (good /\ lay.ok) /\ UNCHANGED <<c, i, seen, pass, row, lay, k, q, wr, wc>>
     ELSE LET s == FirstName(q)
              e == StatementEnd(s, 0)
              wide == IF e = 0 THEN {} ELSE WideLines(LineStart(Y, s), e)
              own == {RowWidth(lay, r) : r \in WideRows(lay)}
          IN IF e = 0 THEN Decide("output-not-cmake", s)
             ELSE IF \E w \in wide : w[1] \notin own THEN Decide("too-wide", (CHOOSE w \in wide : w[1] \notin own)[2])
             ELSE IF Fixed /\ ~Single(lay) THEN Decide("several-on-a-wide-line", s)
             ELSE st' = "next" /\ q' = e /\ good' = (good /\ lay.ok) /\ k' = k + Cardinality(wide) /\ UNCHANGED <<c, i, seen, pass, row, lay, wr, wc>>
\* what was reported, and what the tool did when told to require an admissible layout
Report == /\ st = "end"
          /\ LET C == Cases[c] IN
             Decide(IF good # (C.valid = 1) THEN "admissible-differs"
                    ELSE IF C.ran = 1 /\ (C.rc = 0) # good THEN "exit-status"
                    ELSE IF C.ran = 1 /\ ~good /\ C.file # C.x THEN "written-though-not-admissible"
                    ELSE IF C.ran = 1 /\ good /\ C.file # Y THEN "not-written"
                    ELSE "ok", k)
NextWidth == Take \/ Place \/ NextPass \/ Accept \/ Measure \/ Report
=============================================================================
