------------------------------- MODULE MCExpr -------------------------------
(***************************************************************************)
(* C07: every expression of up to MaxLen binary operators, with one pair   *)
(* of brackets and one unary operator at any place.  The evaluator scans   *)
(* left to right with two stacks; the value it must find is that of the    *)
(* grammar: an expression is split at its last operator of the weakest     *)
(* kind.  Operators are computed here on TLA+ integers.                    *)
(***************************************************************************)
EXTENDS MCBase

MCTest(p) == Program(<<>>)
\* the manual's table: text, strength
Ops0 == << <<"*", 20>>, <<"/", 20>>, <<"%", 20>>, <<"+", 19>>, <<"-", 19>>, <<">>", 18>>, <<"<<", 18>>, <<">", 17>>, <<">=", 17>>,
           <<"<", 17>>, <<"<=", 17>>, <<"==", 16>>, <<"!=", 16>>, <<"&", 15>>, <<"^", 14>>, <<"|", 13>>, <<"&&", 12>>, <<"||", 11>>, <<"?", 10>> >>
Uns == << "-", "~", "!", "<", ">" >>
UNK == 9999                     \* stands for an undefined symbol
Leaves == << <<1, 2, 3, 4>>, <<7, 3, 2, 2>>, <<0, 1, 1, 0>>, <<2, 0, 3, 1>>, <<UNK, 0, 1, 2>>, <<1, UNK, 0, 1>>, <<6, 6, 300, 2>>, <<0, UNK, UNK, 5>> >>

\* an expression x: ops (tuple of operator numbers), leaf (row of Leaves), br = <<i, j>> operands in brackets (<<0, 0>> none), un = <<operand, operator>> (0 none)
Opnd(x, i) == Leaves[x.leaf][i]
Text1(n) == IF n = UNK THEN T("u") ELSE DecNat(n)
OpndText(x, i) == (IF x.br[1] = i THEN T("[") ELSE <<>>)
                  \o (IF x.un[1] = i THEN T(Uns[x.un[2]]) ELSE <<>>) \o Text1(Opnd(x, i))
                  \o (IF x.br[2] = i THEN T("]") ELSE <<>>)
\* the unary operator of a bracketed operand stands before the bracket when the bracket starts there
OpndText2(x, i) == IF x.br[1] = i /\ x.un[1] = i /\ x.un[3]
                   THEN T(Uns[x.un[2]]) \o T("[") \o Text1(Opnd(x, i))
                   ELSE OpndText(x, i)
RECURSIVE TextOf(_, _)
TextOf(x, i) == OpndText2(x, i) \o (IF i > Len(x.ops) THEN <<>> ELSE <<SP>> \o T(Ops0[x.ops[i]][1]) \o <<SP>> \o TextOf(x, i + 1))

--------------------------------------------------------------------------
(* values: [n, u] with u = unknown; e: "" or "skip" (outside what the integers here can do) or "div" *)
V(n, u) == [n |-> n, u |-> u, e |-> ""]
Bad(e) == [n |-> 0, u |-> FALSE, e |-> e]
B(b) == IF b THEN 1 ELSE 0
Trunc(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
\* bitwise operators on 24 bit two's complement
M24 == 16777216
Two(a) == a % M24
Back(a) == IF a >= M24 \div 2 THEN a - M24 ELSE a
Fits(a) == Abs(a) < M24 \div 2
Compute(t, a, b) ==
  CASE t = "*" -> a * b
    [] t = "/" -> Trunc(a, b)
    [] t = "%" -> IF b = 0 THEN a ELSE a - b * Trunc(a, b)
    [] t = "+" -> a + b
    [] t = "-" -> a - b
    [] t = ">>" -> a \div (2 ^ b)
    [] t = "<<" -> a * (2 ^ b)
    [] t = ">" -> B(a > b) [] t = ">=" -> B(a >= b) [] t = "<" -> B(a < b) [] t = "<=" -> B(a <= b)
    [] t = "==" -> B(a = b) [] t = "!=" -> B(a # b)
    [] t = "&" -> Back(Two(a) & Two(b)) [] t = "^" -> Back(Two(a) ^^ Two(b)) [] t = "|" -> Back(Two(a) | Two(b))
Bin(t, x, y) ==
  IF x.e # "" THEN x ELSE IF y.e # "" THEN y
  ELSE IF t = "&&" THEN (IF (~x.u /\ x.n = 0) \/ (~y.u /\ y.n = 0) THEN V(0, FALSE) ELSE V(1, x.u \/ y.u))
  ELSE IF t = "||" THEN (IF (~x.u /\ x.n # 0) \/ (~y.u /\ y.n # 0) THEN V(1, FALSE) ELSE V(0, x.u \/ y.u))
  ELSE IF t = "?" THEN (IF x.u THEN V(0, TRUE) ELSE IF x.n # 0 THEN y ELSE V(0, FALSE))
  ELSE IF x.u \/ y.u THEN V(0, TRUE)
  ELSE IF t = "/" /\ y.n = 0 THEN Bad("div")
  ELSE IF t \in {">>", "<<"} /\ (y.n < 0 \/ y.n > 12) THEN Bad("skip")
  ELSE IF t = "*" /\ (Abs(x.n) > 4000 \/ Abs(y.n) > 4000) THEN Bad("skip")
  ELSE IF t = "<<" /\ Abs(x.n) > 4000 THEN Bad("skip")
  ELSE LET r == Compute(t, x.n, y.n) IN IF Fits(r) THEN V(r, FALSE) ELSE Bad("skip")
Un(t, x) == IF x.e # "" \/ x.u THEN [x EXCEPT !.n = 0]
            ELSE V(CASE t = "-" -> -x.n [] t = "~" -> -x.n - 1 [] t = "!" -> B(x.n = 0) [] t = "<" -> x.n % 256 [] t = ">" -> (x.n \div 256) % 256, FALSE)

\* the grammar: the value of operands i..j
RECURSIVE Value(_, _, _, _)
Value(x, i, j, inside) ==
  LET bi == x.br[1]  bj == x.br[2]
      group == bi > 0 /\ ~inside /\ i <= bi /\ bj <= j
      \* operator k stands between operands k and k + 1; those in the brackets do not count outside
      open == {k \in i..(j - 1) : ~(group /\ bi <= k /\ k < bj)}
      weakest == CHOOSE s \in {Ops0[x.ops[k]][2] : k \in open} : \A k \in open : s <= Ops0[x.ops[k]][2]
      at == CHOOSE k \in open : Ops0[x.ops[k]][2] = weakest /\ \A h \in open : Ops0[x.ops[h]][2] = weakest => h <= k
      leaf == LET v == IF Opnd(x, i) = UNK THEN V(0, TRUE) ELSE V(Opnd(x, i), FALSE) IN
              IF x.un[1] = i /\ ~(bi = i /\ x.un[3]) THEN Un(Uns[x.un[2]], v) ELSE v
  IN IF group /\ i = bi /\ j = bj
     THEN LET v == Value(x, i, j, TRUE) IN IF x.un[1] = i /\ x.un[3] THEN Un(Uns[x.un[2]], v) ELSE v
     ELSE IF open = {} THEN leaf
     ELSE Bin(Ops0[x.ops[at]][1], Value(x, i, at, inside), Value(x, at + 1, j, inside))

\* every operand is evaluated, so a division by 0 anywhere counts; which of two failures comes first does not matter here
Init == \E m \in 0..MaxLen : \E o \in [1..m -> 1..Len(Ops0)] : \E f \in 1..Len(Leaves) :
        \E bi, bj \in 0..(m + 1) : \E ui \in 0..(IF m < 3 THEN m + 1 ELSE 0) : \E uo \in 1..Len(Uns) : \E uf \in BOOLEAN :
          /\ (bi = 0 /\ bj = 0) \/ (bi > 0 /\ bi < bj)
          /\ (ui = 0 => uo = 1 /\ ~uf) /\ (uf => ui = bi)
          /\ w = [x |-> [ops |-> o, leaf |-> f, br |-> <<bi, bj>>, un |-> <<ui, uo, uf>>], done |-> FALSE]
Machine0 == State0(0)
Evaluate(v) == ~v.done /\ w' = [x |-> v.x, done |-> TRUE, r |-> Eval(StartPass(Machine0), TextOf(v.x, 1), FALSE)]
Next == <<Evaluate(w)>>_w
Spec == Init /\ [][Next]_w

Same(g, r) == CASE g.e = "skip" -> TRUE
                [] g.e = "div" -> r.w.exit = E_DIV0
                [] OTHER -> Running(r.w) /\ r.w.errs = <<>> /\ Len(r.l) = 1 /\ r.l[1].u = g.u /\ (g.u \/ r.l[1].v = N(g.n))
Check(v) == v.done => Same(Value(v.x, 1, Len(v.x.ops) + 1, FALSE), v.r)
Theorem == [][Check(w')]_w

\* the expression as an operand, its value in four bytes
Low(n, k) == [i \in 1..k |-> (CASE i = 1 -> n [] i = 2 -> n \div 256 [] i = 3 -> n \div 65536 [] i = 4 -> n \div 16777216) % 256]
Source(x) == Program(<<L(" processor 6502"), L(" org 1"), T(" dc.l ") \o TextOf(x, 1) \o <<LF>>>>)
ReportExpr(v) == v.done => LET g == Value(v.x, 1, Len(v.x.ops) + 1, FALSE) IN
                 g.e = "skip" \/ Tell(Source(v.x), IF g.e = "div" THEN E_DIV0 ELSE IF g.u THEN E_NOTRES ELSE 0, <<1, 0>> \o Low(g.n, 4))
ExprReports == [][ReportExpr(w')]_w
=============================================================================
