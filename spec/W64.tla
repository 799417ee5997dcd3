-------------------------------- MODULE W64 ---------------------------------
(***************************************************************************)
(* Signed 64-bit integers.  TLC integers have 32 bits, so a value is either *)
(* small, <<n>> with -2^30 < n < 2^30, or wide, a tuple of its 8 two's     *)
(* complement bytes, least significant first.  The representation is       *)
(* canonical: small whenever possible, so equality is equality.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, Text

LIM == 1073741824
Small(a) == Len(a) = 1
N(n) == <<n>>                       \* n must be in the small range
W0 == <<0>>
W1 == <<1>>
Bool(b) == IF b THEN W1 ELSE W0

ByteOfInt(n, k) == (n \div (CASE k = 0 -> 1 [] k = 1 -> 256 [] k = 2 -> 65536 [] k = 3 -> 16777216)) % 256
Bytes8(a) == IF Small(a)
             THEN LET n == a[1] IN
                  [k \in 1..8 |-> IF k <= 4 THEN ByteOfInt(n, k - 1) ELSE IF n < 0 THEN 255 ELSE 0]
             ELSE a
\* canonical value of 8 bytes
Canon(b) ==
  LET hi == b[4]
      pos == \A k \in 5..8 : b[k] = 0
      neg == \A k \in 5..8 : b[k] = 255
  IN IF pos /\ hi < 64 THEN <<b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * hi>>
     ELSE IF neg /\ hi >= 192 /\ ~(hi = 192 /\ b[1] = 0 /\ b[2] = 0 /\ b[3] = 0)
          THEN <<(b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (hi - 256))>>
     ELSE b
FromInt(n) == IF n > -LIM /\ n < LIM THEN <<n>> ELSE Canon(Bytes8(<<n>>))

NegB(b) == LET RECURSIVE F(_, _)
               F(k, c) == IF k > 8 THEN <<>>
                          ELSE LET s == 255 - b[k] + c IN <<s % 256>> \o F(k + 1, s \div 256)
           IN F(1, 1)
AddB(x, y) == LET RECURSIVE F(_, _)
                  F(k, c) == IF k > 8 THEN <<>>
                             ELSE LET s == x[k] + y[k] + c IN <<s % 256>> \o F(k + 1, s \div 256)
              IN F(1, 0)
IsNeg(a) == IF Small(a) THEN a[1] < 0 ELSE a[8] >= 128

Add(a, b) == IF Small(a) /\ Small(b)
             THEN LET n == a[1] + b[1] IN IF n > -LIM /\ n < LIM THEN <<n>> ELSE Canon(Bytes8(<<n>>))
             ELSE Canon(AddB(Bytes8(a), Bytes8(b)))
Neg(a)    == IF Small(a) THEN <<-a[1]>> ELSE Canon(NegB(a))
Sub(a, b) == IF Small(a) /\ Small(b) THEN Add(a, <<-b[1]>>)
             ELSE Canon(AddB(Bytes8(a), NegB(Bytes8(b))))
Inc(a, n) == Add(a, <<n>>)
NotW(a)   == IF Small(a) THEN FromInt(-a[1] - 1) ELSE Canon([k \in 1..8 |-> 255 - a[k]])

\* wide multiplication, schoolbook modulo 2^64
MulB(x, y) ==
  LET Col(k) == LET RECURSIVE S(_, _)
                    S(i, acc) == IF i > k THEN acc ELSE S(i + 1, acc + x[i] * y[k + 1 - i])
                IN S(1, 0)
      RECURSIVE F(_, _)
      F(k, c) == IF k > 8 THEN <<>> ELSE LET s == Col(k) + c IN <<s % 256>> \o F(k + 1, s \div 256)
  IN F(1, 0)
Abs(n) == IF n < 0 THEN -n ELSE n
Mul(a, b) == IF Small(a) /\ Small(b) /\ Abs(a[1]) < 32768 /\ Abs(b[1]) < 32768
             THEN FromInt(a[1] * b[1])
             ELSE Canon(MulB(Bytes8(a), Bytes8(b)))

\* unsigned comparison of byte tuples
LtB(x, y) == LET RECURSIVE F(_)
                 F(k) == IF k = 0 THEN FALSE ELSE IF x[k] # y[k] THEN x[k] < y[k] ELSE F(k - 1)
             IN F(8)
Lt(a, b) == IF Small(a) /\ Small(b) THEN a[1] < b[1]
            ELSE IF IsNeg(a) # IsNeg(b) THEN IsNeg(a)
            ELSE LtB(Bytes8(a), Bytes8(b))
Le(a, b) == ~Lt(b, a)
\* unsigned comparison
ULt(a, b) == IF Small(a) /\ Small(b) /\ a[1] >= 0 /\ b[1] >= 0 THEN a[1] < b[1]
             ELSE LtB(Bytes8(a), Bytes8(b))

\* unsigned shift-and-subtract division of byte tuples: <<quotient, remainder>>
Bit(b, i) == (b[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2
Dbl(b, c) == LET RECURSIVE F(_, _)
                 F(k, cc) == IF k > 8 THEN <<>>
                             ELSE LET s == 2 * b[k] + cc IN <<s % 256>> \o F(k + 1, s \div 256)
             IN F(1, c)
DivB(x, y) ==
  LET RECURSIVE F(_, _, _)
      F(i, q, r) == IF i < 0 THEN <<q, r>>
                    ELSE LET r2 == Dbl(r, Bit(x, i)) IN
                         IF LtB(r2, y) THEN F(i - 1, Dbl(q, 0), r2)
                         ELSE F(i - 1, Dbl(q, 1), AddB(r2, NegB(y)))
      Z == [k \in 1..8 |-> 0]
  IN F(63, Z, Z)
AbsB(a) == IF IsNeg(a) THEN NegB(Bytes8(a)) ELSE Bytes8(a)
\* C division truncates towards zero; the remainder has the sign of the dividend
Div(a, b) == IF Small(a) /\ Small(b)
             THEN LET q == Abs(a[1]) \div Abs(b[1]) IN <<IF (a[1] < 0) = (b[1] < 0) THEN q ELSE -q>>
             ELSE LET q == DivB(AbsB(a), AbsB(b))[1] IN
                  Canon(IF IsNeg(a) = IsNeg(b) THEN q ELSE NegB(q))
Mod(a, b) == IF Small(a) /\ Small(b)
             THEN LET r == Abs(a[1]) % Abs(b[1]) IN <<IF a[1] < 0 THEN -r ELSE r>>
             ELSE LET r == DivB(AbsB(a), AbsB(b))[2] IN
                  Canon(IF IsNeg(a) THEN NegB(r) ELSE r)

NonNegSmall(a, b) == Small(a) /\ Small(b) /\ a[1] >= 0 /\ b[1] >= 0
AndW(a, b) == IF NonNegSmall(a, b) THEN <<a[1] & b[1]>>
              ELSE LET x == Bytes8(a) y == Bytes8(b) IN Canon([k \in 1..8 |-> x[k] & y[k]])
OrW(a, b)  == IF NonNegSmall(a, b) THEN <<a[1] | b[1]>>
              ELSE LET x == Bytes8(a) y == Bytes8(b) IN Canon([k \in 1..8 |-> x[k] | y[k]])
XorW(a, b) == IF NonNegSmall(a, b) THEN <<a[1] ^^ b[1]>>
              ELSE LET x == Bytes8(a) y == Bytes8(b) IN Canon([k \in 1..8 |-> x[k] ^^ y[k]])

\* addresses are unsigned
UMod(a, b) == IF NonNegSmall(a, b) THEN <<a[1] % b[1]>> ELSE Canon(DivB(Bytes8(a), Bytes8(b))[2])

\* counts beyond the width shift everything out
Far(b) == ~(Small(b) /\ b[1] \in 0..63)
Shl(a, b) == IF Far(b) THEN W0 ELSE
             LET n == b[1]
                 bytes == n \div 8  bits == n % 8
                 x == Bytes8(a)
                 m == [k \in 1..8 |-> IF k - bytes >= 1 THEN x[k - bytes] ELSE 0]
                 RECURSIVE F(_, _)
                 F(k, c) == IF k > 8 THEN <<>>
                            ELSE LET s == m[k] * (2 ^ bits) + c IN <<s % 256>> \o F(k + 1, s \div 256)
             IN IF Small(a) /\ n < 15 /\ Abs(a[1]) < 32768 THEN FromInt(a[1] * (2 ^ n))
                ELSE Canon(F(1, 0))
Shr(a, b) == IF Far(b) THEN (IF IsNeg(a) THEN <<-1>> ELSE W0) ELSE
             LET n == b[1]
                 bytes == n \div 8  bits == n % 8
                 x == Bytes8(a)
                 sg == IF IsNeg(a) THEN 255 ELSE 0
                 At9(k) == IF k > 8 THEN sg ELSE x[k]
             IN IF Small(a) THEN <<IF n > 30 THEN (IF a[1] < 0 THEN -1 ELSE 0)
                                   ELSE IF n = 30 THEN (IF a[1] < 0 THEN -1 ELSE 0)
                                   ELSE a[1] \div (2 ^ n)>>
                ELSE Canon([k \in 1..8 |->
                       ((At9(k + bytes) + 256 * At9(k + bytes + 1)) \div (2 ^ bits)) % 256])

\* byte k (0 = least significant)
ByteN(a, k) == IF Small(a) THEN IF k < 4 THEN ByteOfInt(a[1], k) ELSE IF a[1] < 0 THEN 255 ELSE 0
               ELSE a[k + 1]
IsZero(a) == a = W0
IntOf(a) == a[1]                      \* only for small values

\* unsigned hexadecimal, at least d digits
HexW(a, d) ==
  LET b == Bytes8(a)
      RECURSIVE F(_)
      F(k) == IF k = 0 THEN <<>> ELSE Hex2(b[k]) \o F(k - 1)
      full == F(8)
      nz == SkipIn(full, 1, {48})
      start == Min(nz, 17 - d)
  IN IF Small(a) /\ a[1] >= 0 /\ a[1] < 65536 /\ d = 4
     THEN Hex2(a[1] \div 256) \o Hex2(a[1] % 256)
     ELSE From(full, start)

\* signed decimal
RECURSIVE DecB(_)
DecB(b) == LET qr == DivB(b, [k \in 1..8 |-> IF k = 1 THEN 10 ELSE 0]) IN
           (IF \A k \in 1..8 : qr[1][k] = 0 THEN <<>> ELSE DecB(qr[1])) \o <<48 + qr[2][1]>>
DecW(a) == IF Small(a) THEN DecInt(a[1])
           ELSE IF IsNeg(a) THEN <<45>> \o DecB(NegB(a)) ELSE DecB(a)

\* the low 32 bits as a signed number
Low32(a) == IF Small(a) THEN a
            ELSE Canon([k \in 1..8 |-> IF k <= 4 THEN a[k] ELSE IF a[4] >= 128 THEN 255 ELSE 0])
DecLow32(a) == DecW(Low32(a))
=============================================================================
