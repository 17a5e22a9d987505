------------------------------ MODULE Annotate ------------------------------
(***************************************************************************)
(* C23.  Reads the HTML that cmake-annotate writes, together with the      *)
(* listfile, one tag or one run of text per step.                          *)
(*                                                                         *)
(*  - the text of the elements, with entities decoded, is the listfile     *)
(*    (a byte order mark may be dropped: it is not part of the text);      *)
(*  - the elements are exactly the nodes and tokens of the parse tree      *)
(*    (recorded from the parser), properly nested;                         *)
(*  - independently of the recorded tree, every lexical element of the     *)
(*    source (read with the grammar of CMakeLang) stands inside the        *)
(*    elements its role demands: statement name, parentheses, argument,    *)
(*    comment, formatting switch, and as many FLOW_CONTROL elements as     *)
(*    there are open blocks;                                               *)
(*  - no character of the source is markup.                                *)
(*                                                                         *)
(* Case: src listfiles; html what was written; fmt (0 stub, 1 page,        *)
(* 2 iframe); tree: per listfile the events of its parse tree, the name of *)
(* a node or token where it starts, "" where it ends.                      *)
(***************************************************************************)
EXTENDS CMakeLang, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
\* f listfile, h position in the HTML, p position in the listfile, ev next
\* tree event, st open elements, d parenthesis depth, fl open blocks,
\* ends: the statement being read closes a block
VARIABLES c, f, h, p, ev, st, d, fl, ends
vars == <<c, f, h, p, ev, st, d, fl, ends>>
H == Cases[c].html
X == Cases[c].src[f]
Tree == Cases[c].tree[f]
Verdict(clause, pos) == PrintT("@V " \o ToString(c) \o " " \o clause \o " " \o ToString(pos))
Decide(clause, pos) == Verdict(clause, pos) /\ f' = -1 /\ UNCHANGED <<c, h, p, ev, st, d, fl, ends>>

LT == 60  GT == 62  AMP == 38  SEMI == 59
OpenTag == Cp("<span class=\"cmf-")
CloseTag == Cp("</span>")
BodyTag == Cp("<span class=\"cmf-BODY\">")

RECURSIVE Find(_, _, _)
Find(t, i, s) == LET j == FindIn(t, i, {s[1]}) IN
                 IF j > Len(t) THEN 0 ELSE IF HasAt(t, j, s) THEN j ELSE Find(t, j + 1, s)

N_STATEMENT == Cp("STATEMENT")    N_FUNNAME == Cp("FUNNAME")   N_COMMENT == Cp("COMMENT")
N_LPAREN == Cp("LPAREN")  N_RPAREN == Cp("RPAREN")  N_PARENGROUP == Cp("PARENGROUP")
N_ARGS == {Cp("ARGUMENT"), Cp("KEYWORD"), Cp("FLAG")}
N_SWITCH == Cp("ONOFFSWITCH")  N_FLOW == Cp("FLOW_CONTROL")
N_ATSTMT == Cp("ATWORDSTATEMENT")
Openers == {Cp("if"), Cp("foreach"), Cp("while"), Cp("function"), Cp("macro")}
Closers == {Cp("endif"), Cp("endforeach"), Cp("endwhile"), Cp("endfunction"), Cp("endmacro")}

In(n) == \E i \in 1..Len(st) : st[i] = n
Count(n) == LET F[i \in 0..Len(st)] == IF i = 0 THEN 0 ELSE F[i - 1] + (IF st[i] = n THEN 1 ELSE 0) IN F[Len(st)]
\* the node that holds the token (the token is the last open element)
Holder == IF Len(st) < 2 THEN <<>> ELSE st[Len(st) - 1]
IsSwitch(t) ==
  LET a == Skip(t, 2, Blank) b == IF HasAt(t, a, TxtFormat) THEN a + 14 ELSE IF HasAt(t, a, TxtCmf) THEN a + 5 ELSE 0
  IN b > 0 /\ (HasAt(t, b, TxtOff) \/ HasAt(t, b, TxtOn))

\* the element that starts at p: what is wrong about where it stands, and
\* how the state goes on
Place(q) ==
  LET e == NextEvent(X, q)
      word == IF e.k = "u" THEN ToLower(TextOf(X, e)) ELSE <<>>
      isname == d = 0 /\ e.k = "u" /\ NextEvent(X, e.e).k = "("
      nfl == fl + (IF isname /\ word \in Openers THEN 1 ELSE 0)
      nends == IF isname THEN word \in Closers ELSE ends
      nd == CASE e.k = "(" -> d + 1 [] e.k = ")" -> d - 1 [] OTHER -> d
      blocks == Count(N_FLOW)
      wrong ==
        IF isname THEN IF Holder # N_FUNNAME \/ ~In(N_STATEMENT) THEN "name" ELSE IF blocks # nfl THEN "block" ELSE ""
        ELSE IF e.k = "(" THEN IF Holder # N_LPAREN \/ ~In(N_STATEMENT) \/ (d > 0 /\ ~In(N_PARENGROUP)) THEN "lparen" ELSE ""
        ELSE IF e.k = ")" THEN IF Holder # N_RPAREN \/ ~In(N_STATEMENT) \/ (d > 1 /\ ~In(N_PARENGROUP)) THEN "rparen" ELSE ""
        ELSE IF IsComment(e) THEN
             IF e.k = "lc" /\ IsSwitch(TextOf(X, e)) THEN IF Holder # N_SWITCH THEN "switch" ELSE ""
             ELSE IF Holder # N_COMMENT \/ (d > 0 /\ ~In(N_STATEMENT)) THEN "comment" ELSE ""
        ELSE IF d = 0 THEN IF ~In(N_ATSTMT) THEN "atword" ELSE ""
        ELSE IF Holder \notin N_ARGS \/ ~In(N_STATEMENT) \/ In(N_FUNNAME) \/ In(N_COMMENT) THEN "argument" ELSE ""
  IN [wrong |-> wrong, d |-> nd, fl |-> IF e.k = ")" /\ nd = 0 /\ ends THEN nfl - 1 ELSE nfl, ends |-> nends, bad |-> e.k = "bad"]

\* the character that the text at i stands for: [c, e]
Decoded(i) ==
  IF H[i] # AMP THEN [c |-> H[i], e |-> i + 1]
  ELSE LET s == FindIn(H, i, {SEMI}) n == SubSeq(H, i + 1, s - 1) IN
       [c |-> CASE n = Cp("amp") -> AMP [] n = Cp("lt") -> LT [] n = Cp("gt") -> GT [] n = Cp("quot") -> QUOTE
                [] n = Cp("#34") -> QUOTE [] n = Cp("apos") -> 39 [] n = Cp("#39") -> 39 [] n = Cp("#x27") -> 39
                [] OTHER -> -1, e |-> s + 1]

\* reads the text at h up to the next tag against the listfile:
\* [h, p, bad: first position that differs or 0]
RECURSIVE Run(_, _)
Run(i, q) == IF i > Len(H) \/ H[i] = LT THEN [h |-> i, p |-> q, bad |-> 0]
             ELSE LET n == Decoded(i) IN
                  IF q > Len(X) \/ n.c # X[q] THEN [h |-> i, p |-> q, bad |-> i]
                  ELSE Run(n.e, q + 1)

\* what may stand before the first and after the last element
Before(n, i) == CASE Cases[c].fmt = 0 -> i = n
                  [] Cases[c].fmt = 1 -> Find(H, n, Cp("<body")) \in n..i
                  [] Cases[c].fmt = 2 -> Find(H, n, Cp("<template id=\"renderedcontent\">")) \in n..i
NoMark == p = 1 /\ Chr(X, 1) = BOM

Init == c \in 1..Len(Cases) /\ f = 1 /\ h = 0 /\ p = 1 /\ ev = 1 /\ st = <<>> /\ d = 0 /\ fl = 0 /\ ends = FALSE

\* the next listfile starts: find its root element
Start ==
  /\ h = 0
  /\ IF Cases[c].err # <<>> THEN Decide("failed", 0)
     ELSE LET b == Find(H, 1, BodyTag) IN
          IF b = 0 \/ ~Before(1, b) THEN Decide("no-content", b)
          ELSE h' = b /\ UNCHANGED <<c, f, p, ev, st, d, fl, ends>>

\* after the last event of the tree of a listfile
Finish ==
  LET b == Find(H, h, Cp("<span"))
      tail == SubSeq(H, h, IF b = 0 THEN Len(H) ELSE b - 1) IN
  IF p <= Len(X) /\ ~(NoMark /\ Len(X) = 1) THEN Decide("source-missing", h)
  ELSE IF d # 0 \/ fl # 0 THEN Decide("skip-not-cmake", h)
  ELSE IF Cases[c].fmt = 0 /\ tail # <<>> THEN Decide("text-after", h)
  ELSE IF Cases[c].fmt >= 1 /\ Find(tail, 1, Cp("</html>")) = 0 THEN Decide("page-not-closed", h)
  ELSE IF Cases[c].fmt = 2 /\ Find(tail, 1, Cp("</template>")) = 0 THEN Decide("frame-not-closed", h)
  ELSE IF f < Len(Cases[c].src) THEN
       IF b = 0 \/ ~HasAt(H, b, BodyTag) \/ (Cases[c].fmt > 0 /\ ~Before(h, b)) THEN Decide("next-file", h)
       ELSE f' = f + 1 /\ h' = b /\ p' = 1 /\ ev' = 1 /\ st' = <<>> /\ UNCHANGED <<c, d, fl, ends>>
  ELSE Decide(IF b # 0 THEN "elements-after" ELSE "ok", h)

Read ==
  /\ h > 0 /\ f > 0
  /\ IF ev > Len(Tree) THEN Finish
     ELSE IF HasAt(H, h, OpenTag) THEN
       LET a == h + Len(OpenTag) b == FindIn(H, a, {QUOTE}) n == SubSeq(H, a, b - 1) IN
       IF n # Tree[ev] \/ n = <<>> \/ ~HasAt(H, b, Cp("\">")) THEN Decide("element-not-of-tree", h)
       ELSE h' = b + 2 /\ ev' = ev + 1 /\ st' = Append(st, n) /\ UNCHANGED <<c, f, p, d, fl, ends>>
     ELSE IF HasAt(H, h, CloseTag) THEN
       IF Tree[ev] # <<>> THEN Decide("element-closed", h)
       ELSE h' = h + Len(CloseTag) /\ ev' = ev + 1 /\ st' = SubSeq(st, 1, Len(st) - 1) /\ UNCHANGED <<c, f, p, d, fl, ends>>
     ELSE IF Chr(H, h) = LT THEN Decide("markup", h)
     ELSE \* a run of text: the characters of one token
       LET q == IF NoMark /\ Chr(H, h) # BOM THEN 2 ELSE p
           r == Run(h, q) blank == Chr(X, q) \in Space \cup {BOM} pl == IF blank THEN [wrong |-> ""] ELSE Place(q) IN
       IF st = <<>> \/ h > Len(H) THEN Decide("text-outside", h)
       ELSE IF r.bad # 0 THEN Decide("text-differs", r.bad)
       ELSE IF blank THEN h' = r.h /\ p' = r.p /\ UNCHANGED <<c, f, ev, st, d, fl, ends>>
       ELSE IF pl.bad THEN Decide("skip-not-cmake", h)
       ELSE IF pl.wrong # "" THEN Decide("place-of-" \o pl.wrong, h)
       ELSE h' = r.h /\ p' = r.p /\ d' = pl.d /\ fl' = pl.fl /\ ends' = pl.ends /\ UNCHANGED <<c, f, ev, st>>

Next == (f > 0 /\ Start) \/ Read
=============================================================================
