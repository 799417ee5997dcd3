-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are tuples of character codes.  T("abc") converts a TLA+ string;  *)
(* the remaining operators are the few text functions the rest of the      *)
(* specification needs.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

AsciiStr == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharTab  == [i \in 32..126 |-> SubSeq(AsciiStr, i - 31, i - 31)]
CodeOf   == [c \in {CharTab[i] : i \in 32..126} |-> CHOOSE i \in 32..126 : CharTab[i] = c]
T(str)   == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

TAB == 9   LF == 10   CR == 13   SP == 32   QSP == 128   \* QSP: protected blank

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsDigit(c) == c >= 48 /\ c <= 57
IsAlnum(c) == IsDigit(c) \/ IsUpper(c) \/ IsLower(c)
Lc(c)      == IF IsUpper(c) THEN c + 32 ELSE c
Lower(s)   == [i \in 1..Len(s) |-> Lc(s[i])]

\* C's  c | 0x20
Or20(c) == IF (c \div 32) % 2 = 1 THEN c ELSE c + 32

\* character at position i, 0 past the end (C string terminator)
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
From(s, i) == SubSeq(s, i, Len(s))
Take(s, k) == SubSeq(s, 1, Min(k, Len(s)))


\* first position >= i whose character is in S, or Len(s)+1
RECURSIVE FindIn(_, _, _)
FindIn(s, i, S) == IF i > Len(s) THEN Len(s) + 1
                   ELSE IF s[i] \in S THEN i ELSE FindIn(s, i + 1, S)
\* first position >= i whose character is not in S
RECURSIVE SkipIn(_, _, _)
SkipIn(s, i, S) == IF i > Len(s) THEN Len(s) + 1
                   ELSE IF s[i] \notin S THEN i ELSE SkipIn(s, i + 1, S)
\* position of the two character text <<a,b>>, 0 if absent
RECURSIVE Find2(_, _, _, _)
Find2(s, a, b, i) == IF i >= Len(s) THEN 0
                     ELSE IF s[i] = a /\ s[i+1] = b THEN i ELSE Find2(s, a, b, i + 1)
Find1(s, c) == LET i == FindIn(s, 1, {c}) IN IF i > Len(s) THEN 0 ELSE i

RECURSIVE RTrim(_, _)
RTrim(s, S) == IF s # <<>> /\ s[Len(s)] \in S THEN RTrim(SubSeq(s, 1, Len(s) - 1), S) ELSE s

\* cut at the first character in S
CutAt(s, S) == SubSeq(s, 1, FindIn(s, 1, S) - 1)
Subst(s, a, b) == [i \in 1..Len(s) |-> IF s[i] = a THEN b ELSE s[i]]

Blanks(n) == [i \in 1..n |-> SP]
PadR(s, n) == IF Len(s) >= n THEN s ELSE s \o Blanks(n - Len(s))
PadL(s, n) == IF Len(s) >= n THEN s ELSE Blanks(n - Len(s)) \o s

RECURSIVE DecNat(_)
DecNat(n) == IF n < 10 THEN <<48 + n>> ELSE DecNat(n \div 10) \o <<48 + (n % 10)>>
DecInt(n) == IF n < 0 THEN <<45>> \o DecNat(-n) ELSE DecNat(n)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexUp(d)    == IF d < 10 THEN 48 + d ELSE 55 + d
Hex2(b) == <<HexDigit(b \div 16), HexDigit(b % 16)>>
HexUp2(b) == <<HexUp(b \div 16), HexUp(b % 16)>>

\* expand tab characters to 8-column stops
RECURSIVE ExpandFrom(_, _, _)
ExpandFrom(s, i, acc) ==
  LET j == FindIn(s, i, {TAB}) IN
  IF j > Len(s) THEN acc \o From(s, i)
  ELSE LET a == acc \o SubSeq(s, i, j - 1) IN
       ExpandFrom(s, j + 1, a \o Blanks(8 - (Len(a) % 8)))
Expand(s) == ExpandFrom(s, 1, <<>>)

\* concatenate a sequence of texts
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>>
            ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET m == Len(ss) \div 2 IN Flat(SubSeq(ss, 1, m)) \o Flat(SubSeq(ss, m + 1, Len(ss)))

\* lexicographic order
RECURSIVE LexLe(_, _, _)
LexLe(a, b, i) == IF i > Len(a) THEN TRUE
                  ELSE IF i > Len(b) THEN FALSE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i]
                  ELSE LexLe(a, b, i + 1)
=============================================================================
