-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Text is a sequence of code points.  Constants are written as strings    *)
(* and converted with Cp.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(ASCII, i, i) : i \in 1..Len(ASCII)} |->
              CHOOSE i \in 1..Len(ASCII) : SubSeq(ASCII, i, i) = ch]
\* the code points of a TLA+ string of printable ASCII characters
\* (SubSeq makes TLC compute the function once and for all)
Cp(s) == SubSeq([i \in 1..Len(s) |-> 31 + CodeOf[SubSeq(s, i, i)]], 1, Len(s))

TAB == 9      LF == 10     VT == 11    FF == 12   CR == 13   SP == 32
QUOTE == 34   HASH == 35   DOLLAR == 36
LPAR == 40    RPAR == 41   EQUALS == 61  AT == 64
LBRK == 91    BSLASH == 92 RBRK == 93    BOM == 65279

Upper == 65..90
Lower == 97..122
Digit == 48..57
Alpha == Upper \cup Lower
IdStart == Alpha \cup {95}
IdChar == IdStart \cup Digit
Blank == {TAB, SP, FF, VT}
Space == Blank \cup {LF, CR}

\* the character at i, or -1 beyond either end
Chr(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i] ELSE -1

LowerC(c) == IF c \in Upper THEN c + 32 ELSE c
UpperC(c) == IF c \in Lower THEN c - 32 ELSE c
ToLower(s) == SubSeq([i \in 1..Len(s) |-> LowerC(s[i])], 1, Len(s))
ToUpper(s) == SubSeq([i \in 1..Len(s) |-> UpperC(s[i])], 1, Len(s))

\* does text t carry s at position i ?
HasAt(t, i, s) == i + Len(s) - 1 <= Len(t) /\ \A k \in 1..Len(s) : t[i + k - 1] = s[k]
StartsWith(t, s) == HasAt(t, 1, s)

\* first position >= i whose character is in S (Len(t) + 1 if none)
RECURSIVE FindIn(_, _, _)
FindIn(t, i, S) == IF i > Len(t) THEN i ELSE IF t[i] \in S THEN i ELSE FindIn(t, i + 1, S)
\* first position >= i whose character is not in S
RECURSIVE Skip(_, _, _)
Skip(t, i, S) == IF i > Len(t) THEN i ELSE IF t[i] \in S THEN Skip(t, i + 1, S) ELSE i
\* last position <= i whose character is not in S (0 if none)
RECURSIVE SkipBack(_, _, _)
SkipBack(t, i, S) == IF i < 1 THEN 0 ELSE IF t[i] \in S THEN SkipBack(t, i - 1, S) ELSE i

RStrip(t, S) == SubSeq(t, 1, SkipBack(t, Len(t), S))
LStrip(t, S) == SubSeq(t, Skip(t, 1, S), Len(t))
Strip(t, S) == LET a == Skip(t, 1, S) b == SkipBack(t, Len(t), S) IN SubSeq(t, a, b)

\* number of bytes of the UTF-8 encoding
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Utf8(_, _, _)
Utf8(t, i, j) == IF i > j THEN 0 ELSE Utf8Len(t[i]) + Utf8(t, i + 1, j)

\* split a text at every LF
RECURSIVE SplitLF(_, _)
SplitLF(t, i) == LET j == FindIn(t, i, {LF}) IN
                 IF j > Len(t) THEN <<SubSeq(t, i, Len(t))>>
                 ELSE <<SubSeq(t, i, j - 1)>> \o SplitLF(t, j + 1)
Lines(t) == SplitLF(t, 1)

RECURSIVE Words(_, _)
Words(t, i) == LET a == Skip(t, i, Space) b == FindIn(t, a, Space) IN
               IF a > Len(t) THEN <<>> ELSE <<SubSeq(t, a, b - 1)>> \o Words(t, b)

RECURSIVE CatAll(_, _)
CatAll(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o CatAll(ss, i + 1)
=============================================================================
