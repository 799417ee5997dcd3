------------------------------ MODULE MCBlocks ------------------------------
(***************************************************************************)
(* C12, C13: every well nested program of conditions, loops, data and      *)
(* assignments up to a length.  The rules a program is judged by do not    *)
(* know the assembler's stacks: a block is found by counting its           *)
(* delimiters, the chosen branch is executed, a loop's body is executed    *)
(* as often as its count says.                                             *)
(***************************************************************************)
EXTENDS MCBase

CONSTANT Kinds          \* the lines used, by number

\* line k of the alphabet at position i of the program; data carry their position
Line(k, i) == CASE k = 1 -> LN(" dc ", 100 + i)
                [] k = 2 -> L("n set n+1")
                [] k = 3 -> L(" dc n")
                [] k = 4 -> L(" if 1")
                [] k = 5 -> L(" if 0")
                [] k = 6 -> L(" if n&1")
                [] k = 7 -> L(" ifconst q")
                [] k = 8 -> L(" ifnconst q")
                [] k = 9 -> L(" else")
                [] k = 10 -> L(" endif")
                [] k = 11 -> L(" repeat 0")
                [] k = 12 -> L(" repeat 2")
                [] k = 13 -> L(" repeat n")
                [] k = 14 -> L(" repend")
                [] k = 15 -> L(" if f")
                [] k = 16 -> L("q set 1")
                [] k = 17 -> L(" repeat f")
Ifs == {4, 5, 6, 7, 8, 15}
Loops == {11, 12, 13, 17}
MCTest(p) == Program(<<L(" org 8"), L("n set 0")>> \o [i \in 1..Len(p) |-> Line(p[i], i)] \o <<L("f equ 3"), L("n set 0")>>)

\* nesting: a stack of "i" (condition), "e" (after its else), "r" (loop)
RECURSIVE Nested(_, _, _)
Nested(p, i, st) ==
  LET k == p[i]
      top == IF st = <<>> THEN "" ELSE st[Len(st)]
      below == SubSeq(st, 1, Len(st) - 1)
  IN IF i > Len(p) THEN st = <<>>
     ELSE IF k \in Ifs THEN Nested(p, i + 1, Append(st, "i"))
     ELSE IF k \in Loops THEN Nested(p, i + 1, Append(st, "r"))
     ELSE IF k = 9 THEN top = "i" /\ Nested(p, i + 1, Append(below, "e"))
     ELSE IF k = 10 THEN top \in {"i", "e"} /\ Nested(p, i + 1, below)
     ELSE IF k = 14 THEN top = "r" /\ Nested(p, i + 1, below)
     ELSE Nested(p, i + 1, st)

\* the line that closes the block whose contents start at i, or its else
RECURSIVE Closing(_, _, _, _)
Closing(p, i, depth, else) ==
  IF depth = 0 /\ (p[i] \in {10, 14} \/ (else /\ p[i] = 9)) THEN i
  ELSE Closing(p, i + 1, depth + (IF p[i] \in Ifs \union Loops THEN 1 ELSE IF p[i] \in {10, 14} THEN -1 ELSE 0), else)

True(k, s) == CASE k = 4 -> TRUE [] k = 5 -> FALSE [] k = 6 -> s.n % 2 = 1 [] k = 7 -> s.q [] k = 8 -> ~s.q [] k = 15 -> TRUE
Count(k, s) == CASE k = 11 -> 0 [] k = 12 -> 2 [] k = 13 -> s.n [] k = 17 -> 3
RECURSIVE Do(_, _, _, _), Times(_, _, _, _, _)
\* execute the lines from..to; s = [n, q, b: bytes]
Do(p, from, to, s) ==
  LET k == p[from] IN
  IF from > to \/ Len(s.b) > 40 THEN s
  ELSE CASE k = 1 -> Do(p, from + 1, to, [s EXCEPT !.b = Append(@, 100 + from)])
         [] k = 2 -> Do(p, from + 1, to, [s EXCEPT !.n = @ + 1])
         [] k = 3 -> Do(p, from + 1, to, [s EXCEPT !.b = Append(@, s.n)])
         [] k = 16 -> Do(p, from + 1, to, [s EXCEPT !.q = TRUE])
         [] k \in Ifs ->
              LET z == Closing(p, from + 1, 0, FALSE)
                  e == Closing(p, from + 1, 0, TRUE)
              IN Do(p, z + 1, to, IF True(k, s) THEN Do(p, from + 1, e - 1, s)
                                  ELSE IF e = z THEN s ELSE Do(p, e + 1, z - 1, s))
         [] k \in Loops ->
              LET z == Closing(p, from + 1, 0, FALSE) IN
              Do(p, z + 1, to, Times(p, from + 1, z - 1, s, Count(k, s)))
Times(p, from, to, s, n) == IF n = 0 THEN s ELSE Times(p, from, to, Do(p, from, to, s), n - 1)

\* q is set by a line that an earlier pass may have executed already
Stable(p) == \A i \in 1..Len(p) : p[i] \in {7, 8} => \A j \in 1..Len(p) : p[j] \notin {15, 17}
Init == \E m \in 0..MaxLen : \E p \in [1..m -> Kinds] : Nested(p, 1, <<>>) /\ Stable(p) /\ w = State0(p)
Next == <<Steps(w)>>_w
Spec == Init /\ [][Next]_w

Expected(p) == Do(p, 1, Len(p), [n |-> 0, q |-> FALSE, b |-> <<>>]).b
Check(v) == Ended(v) => v.exit = 0 /\ Emitted(v.log, 1) = Expected(v.tid)
                        /\ v.ifs = <<BaseIf>> /\ v.reps = <<>>
Theorem == [][Check(w')]_w
=============================================================================
