------------------------------- MODULE MCScope ------------------------------
(***************************************************************************)
(* C16: every program of ordinary labels, local labels of both kinds,      *)
(* SUBROUTINE, a macro with local labels of its own, and references.  A    *)
(* name belongs to the stretch of lines the manual gives it; a reference   *)
(* finds the definition in its own stretch and no other.                   *)
(***************************************************************************)
EXTENDS MCBase

Line(k, i) == CASE k = 1 -> T("a") \o DecNat(i) \o L(" dc 1")
                [] k = 2 -> L(".x dc 2")
                [] k = 3 -> L("1$ dc 3")
                [] k = 4 -> L(" subroutine")
                [] k = 5 -> L(" dc.w .x")
                [] k = 6 -> L(" dc.w 1$")
                [] k = 7 -> L(" m")
                [] k = 8 -> L("c equ *")
                [] k = 9 -> L(" dc.w c")
                [] k = 10 -> L("C set 7")
Size(k) == CASE k \in {1, 2, 3} -> 1 [] k \in {5, 6, 9} -> 2 [] k = 7 -> 6 [] OTHER -> 0
K == 10
MCTest(p) == Program(<<L(" processor 6502"), L(" mac m"), L(".x dc 4"), L("1$ dc 5"), L(" dc.w .x,1$"), L(" endm"), L(" org 256")>>
                     \o [i \in 1..Len(p) |-> Line(p[i], i)])
Init == \E m \in 0..MaxLen : \E p \in [1..m -> 1..K] : w = State0(p)
Next == <<Steps(w)>>_w
Spec == Init /\ [][Next]_w

RECURSIVE AtLine0(_, _)
AtLine0(p, i) == IF i = 1 THEN 256 ELSE AtLine0(p, i - 1) + Size(p[i - 1])
\* the stretch line i is in: how many of the lines that start one come before it
Stretch(p, i, starts) == Cardinality({j \in 1..i : p[j] \in starts})
Defs(p, i, def, starts) == {j \in 1..Len(p) : p[j] = def /\ Stretch(p, j, starts) = Stretch(p, i, starts)}
Target(k) == CASE k = 5 -> 2 [] k = 6 -> 3 [] k = 9 -> 8
Starts(k) == CASE k \in {2, 5} -> {4} [] k \in {3, 6} -> {1} [] k \in {8, 9} -> {}
References(p) == {i \in 1..Len(p) : p[i] \in {5, 6, 9}}
Found(p, i) == Defs(p, i, Target(p[i]), Starts(p[i]))
\* a name defined twice in a stretch, at different addresses
Twice(p) == \E i \in 1..Len(p) : p[i] \in {2, 3, 8} /\ \E j \in Defs(p, i, p[i], Starts(p[i])) : AtLine0(p, i) # AtLine0(p, j)
Lost(p) == \E i \in References(p) : Found(p, i) = {}

RECURSIVE Expected(_, _)
Expected(p, i) ==
  LET at == AtLine0(p, i) IN
  IF i > Len(p) THEN <<>>
  ELSE (CASE p[i] \in 1..3 -> <<p[i]>>
          [] p[i] \in {5, 6, 9} -> LoHi(AtLine0(p, CHOOSE j \in Found(p, i) : TRUE))
          [] p[i] = 7 -> <<4, 5>> \o LoHi(at) \o LoHi(at + 1)
          [] OTHER -> <<>>) \o Expected(p, i + 1)
Check(v) == Ended(v) => LET p == v.tid IN
            IF Twice(p) THEN v.exit # 0
            ELSE IF Lost(p) THEN v.exit = E_NOTRES
            ELSE v.exit = 0 /\ Emitted(v.log, 1) = Expected(p, 1)
Theorem == [][Check(w')]_w
=============================================================================
