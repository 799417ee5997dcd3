------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* C07: which texts are expressions.  Every sequence of up to MaxLen       *)
(* tokens as the list of a DC: it is accepted exactly if it can be derived *)
(* from the grammar                                                        *)
(*    list    = element { "," element }                                    *)
(*    element = { "#" } sum                                                *)
(*    sum     = item { binary item }                                       *)
(*    item    = { unary } ( literal | symbol | bracket sum bracket )       *)
(* The evaluator has no grammar; it keeps two stacks and some flags.       *)
(***************************************************************************)
EXTENDS MCBase

Tokens == << "1", "s", "+", "-", "!", "!=", "[", "]", "(", ",", "#", "$" >>
Leaf(t) == t \in {"1", "s"}
Unary0 == {"-", "!"}
Binary == {"+", "-", "!="}
Opens == {"[", "("}
Closes == {"]"}

\* the positions at which an item (a sum) that starts at i can end, as the set of positions after it
RECURSIVE Items(_, _), Sums(_, _)
Items(x, i) ==
  IF i > Len(x) THEN {}
  ELSE LET t == Tokens[x[i]] IN
       (IF Leaf(t) THEN {i + 1} ELSE {})
       \union (IF t \in Unary0 THEN Items(x, i + 1) ELSE {})
       \union (IF t \in Opens THEN {j + 1 : j \in {k \in Sums(x, i + 1) : k <= Len(x) /\ Tokens[x[k]] \in Closes}} ELSE {})
Sums(x, i) ==
  LET first == Items(x, i)
  IN first \union UNION {Sums(x, j + 1) : j \in {k \in first : k <= Len(x) /\ Tokens[x[k]] \in Binary}}
RECURSIVE Derives(_, _)
Derives(x, i) == IF i > Len(x) THEN FALSE
                 ELSE IF Tokens[x[i]] = "#" THEN Derives(x, i + 1)
                 ELSE \E j \in Sums(x, i) : j = Len(x) + 1 \/ (Tokens[x[j]] = "," /\ Derives(x, j + 1))

RECURSIVE TextOf(_, _)
TextOf(x, i) == IF i > Len(x) THEN <<>> ELSE <<SP>> \o T(Tokens[x[i]]) \o TextOf(x, i + 1)
MCTest(x) == Program(<<L(" processor 6502"), L(" org 1"), L("s = 2"), T(" dc") \o TextOf(x, 1) \o <<LF>>>>)

Init == \E m \in 1..MaxLen : \E x \in [1..m -> 1..Len(Tokens)] : w = [x |-> x, done |-> FALSE]
Read0(v) == ~v.done /\ w' = [x |-> v.x, done |-> TRUE, r |-> Result(v.x)]
Next == <<Read0(w)>>_w
Spec == Init /\ [][Next]_w
Check(v) == /\ (v.r.exit = 0) = Derives(v.x, 1)
            /\ v.r.exit = 0 => Len(Emitted(v.r.log, 1)) = 1 + Cardinality({i \in DOMAIN v.x : Tokens[v.x[i]] = ","})
Theorem == [][Check(w')]_w
ReportText(v) == v.done => Tell(MCTest(v.x), v.r.exit, OutFile(v.r))
TextReports == [][ReportText(w')]_w
=============================================================================
