------------------------------- MODULE MCArith ------------------------------
(***************************************************************************)
(* C07: the 64 bit arithmetic the specification computes with obeys the    *)
(* laws of two's complement integers, at the limits of every width.        *)
(***************************************************************************)
EXTENDS Expr

VARIABLE x
MCTest(p) == 0

\* 2^k - 1, 2^k, 2^k + 1 and their negatives for some k, and a few patterns
P(k) == Shl(W1, N(k))
Near(k) == {Sub(P(k), W1), P(k), Add(P(k), W1)}
Powers == UNION {Near(k) : k \in {0, 1, 7, 8, 15, 16, 29, 30, 31, 32, 33, 47, 62}} \union {P(63), Sub(P(63), W1)}
Values == Powers \union {Neg(a) : a \in Powers} \union {N(10), N(-10), N(255), N(1000000), Mul(N(123456), N(-987654))}
Pow(k) == IF k = 0 THEN W1 ELSE Mul(P(k - 1), N(2))

Canonical(a) == Small(a) => Canon(Bytes8(a)) = a
Ring(a, b) == /\ Add(a, b) = Add(b, a) /\ Sub(Add(a, b), b) = a /\ Neg(Neg(a)) = a /\ Add(a, Neg(a)) = W0
              /\ Mul(a, b) = Mul(b, a) /\ Mul(a, Add(b, W1)) = Add(Mul(a, b), a) /\ Mul(a, N(-1)) = Neg(a)
              /\ Canonical(Add(a, b)) /\ Canonical(Mul(a, b)) /\ Canonical(Neg(a))
Size(a) == IF IsNeg(a) THEN Neg(a) ELSE a         \* the least number stands for itself
Division(a, b) == b # W0 =>
                  /\ Add(Mul(Div(a, b), b), Mod(a, b)) = a
                  /\ ULt(Size(Mod(a, b)), Size(b))
                  /\ (Mod(a, b) = W0 \/ IsNeg(Mod(a, b)) = IsNeg(a))
Bits(a, b) == /\ Add(XorW(a, b), Shl(AndW(a, b), W1)) = Add(a, b)
              /\ OrW(a, b) = Add(XorW(a, b), AndW(a, b))
              /\ NotW(a) = Sub(Neg(a), W1)
              /\ NotW(AndW(a, b)) = OrW(NotW(a), NotW(b))
Order(a, b) == /\ (Lt(a, b) \/ Lt(b, a)) = (a # b)
               /\ ~(Lt(a, b) /\ Lt(b, a))
               /\ (IsNeg(a) = IsNeg(b) => Lt(a, b) = IsNeg(Sub(a, b)))
               /\ (IsNeg(a) # IsNeg(b) => Lt(a, b) = IsNeg(a))
               /\ Le(a, b) = (Lt(a, b) \/ a = b)
Shifts(a, k) == /\ Shl(a, N(k)) = Mul(a, Pow(k))
                /\ Shr(Shl(Shr(a, N(k)), N(k)), N(k)) = Shr(a, N(k))
                /\ IsNeg(Shr(a, N(k))) = IsNeg(a)
                /\ (k < 63 => LET r == Sub(a, Shl(Shr(a, N(k)), N(k))) IN ~IsNeg(r) /\ Lt(r, Pow(k)))
\* what is printed is read back
Texts(a) == /\ Number(HexW(a, 4), 1, Len(HexW(a, 4)) + 1, 16, W0) = a
            /\ LET d == DecW(Size(a)) IN a = P(63) \/ (Number(d, 1, Len(d) + 1, 10, W0) = Size(a) /\ d[1] # 45)
            /\ (IsNeg(a) = (DecW(a)[1] = 45))
            /\ [k \in 1..8 |-> ByteN(a, k - 1)] = Bytes8(a)
            /\ Low32(Low32(a)) = Low32(a) /\ AndW(Sub(a, Low32(a)), Sub(P(32), W1)) = W0

Init == \E a \in Values : \E b \in Values : x = [a |-> a, b |-> b, done |-> FALSE]
Next == <<~x.done /\ x' = [x EXCEPT !.done = TRUE]>>_x
Spec == Init /\ [][Next]_x
Laws(v) == /\ Ring(v.a, v.b) /\ Division(v.a, v.b) /\ Bits(v.a, v.b) /\ Order(v.a, v.b)
           /\ (v.b = W0 => Texts(v.a) /\ (\A k \in 0..63 : Shifts(v.a, k)) /\ Shr(v.a, N(63)) = Shr(v.a, N(64)))
           /\ (Far(v.b) => Shl(v.a, v.b) = W0 /\ Shr(v.a, v.b) = Shr(v.a, N(63)))
           /\ (v.b # W0 => ULt(UMod(v.a, v.b), v.b))
           /\ (~IsNeg(v.a) /\ ~IsNeg(v.b) /\ v.b # W0 => UMod(v.a, v.b) = Mod(v.a, v.b))
Theorem == [][Laws(x')]_x
=============================================================================
