------------------------------- MODULE MCMacro ------------------------------
(***************************************************************************)
(* C14: every program of two macros and a main part made of a few lines    *)
(* each.  It must come to the same as its text with the calls written out: *)
(* a call is replaced by the body with the arguments put in, up to an      *)
(* MEXIT that is reached.                                                  *)
(***************************************************************************)
EXTENDS MCBase

\* a program is <<main, body of a, body of b>>, each a tuple of line numbers
BodyLine(k) == CASE k = 1 -> L(" dc {1}")
                 [] k = 2 -> L(" dc {2}+1,{1}")
                 [] k = 3 -> L(" b {1},4")
                 [] k = 4 -> L(" mexit")
                 [] k = 5 -> L(" if {1}-3")
                 [] k = 6 -> L(" endif")
                 [] k = 7 -> L("n set n+{1}")
                 [] k = 8 -> L(" dc n")
                 [] k = 9 -> L(".l dc 9")
                 [] k = 10 -> L(" dc .l-*")
                 [] k = 11 -> L(" dc {0}")
MainLine(k) == CASE k = 1 -> L(" a 3,5")
                 [] k = 2 -> L(" a 6,7")
                 [] k = 3 -> L(" b 8,n")
                 [] k = 4 -> L(".l dc 1")
                 [] k = 5 -> L(" dc .l-*")
                 [] k = 6 -> L(" dc n")
Seqs(k, n) == {p \in [1..n -> 0..k] : \A i \in 1..(n - 1) : p[i] = 0 => p[i + 1] = 0}     \* 0: no line
Strip(p) == SelectSeq(p, LAMBDA k : k # 0)
MCTest(id) ==
  LET a == Strip(id[2])  b == Strip(id[3])  m == Strip(id[1]) IN
  Program(<<L(" org 8"), L("n set 0"), L(" mac a")>> \o [i \in 1..Len(a) |-> BodyLine(a[i])]
          \o <<L(" endm"), L(" mac b")>> \o [i \in 1..Len(b) |-> BodyLine(b[i])] \o <<L(" endm")>>
          \o [i \in 1..Len(m) |-> MainLine(m[i])] \o <<L("n set 0")>>)

\* conditions in a body are well nested
RECURSIVE Flat1(_, _, _)
Flat1(p, i, open) == IF i > Len(p) THEN ~open
                     ELSE IF p[i] = 5 THEN ~open /\ Flat1(p, i + 1, TRUE)
                     ELSE IF p[i] = 6 THEN open /\ Flat1(p, i + 1, FALSE)
                     ELSE Flat1(p, i + 1, open)
\* b does not call itself; every local label is used only after it has been defined in the same call
LocalOk(p, x, y) == Cardinality({i \in 1..Len(p) : p[i] = x}) <= 1
                    /\ \A i \in 1..Len(p) : p[i] = y => \E j \in 1..(i - 1) : p[j] = x /\ ~\E k \in j..i : p[k] \in {5, 6, 4}
Sound(p) == Flat1(p, 1, FALSE) /\ LocalOk(p, 9, 10)

--------------------------------------------------------------------------
\* s = [n, b: bytes, l: position of the local label, on: lines are executed]; args = <<first, second>>
RECURSIVE Body(_, _, _, _, _)
Body(id, p, i, args, s) ==
  LET k == p[i]
      put(x) == [s EXCEPT !.b = @ \o x]
      next(t) == Body(id, p, i + 1, args, t)
  IN IF i > Len(p) THEN s
     ELSE IF k = 5 THEN next([s EXCEPT !.on = args[1] # 3])
     ELSE IF k = 6 THEN next([s EXCEPT !.on = TRUE])
     ELSE IF ~s.on THEN next(s)
     ELSE CASE k = 1 -> next(put(<<args[1]>>))
            [] k = 2 -> next(put(<<args[2] + 1, args[1]>>))
            [] k = 3 -> LET r == Body(id, Strip(id[3]), 1, <<args[1], 4>>, s) IN next([r EXCEPT !.l = s.l, !.on = TRUE])
            [] k = 4 -> s
            [] k = 7 -> next([s EXCEPT !.n = @ + args[1]])
            [] k = 8 -> next(put(<<s.n % 256>>))
            [] k = 9 -> next([put(<<9>>) EXCEPT !.l = Len(s.b)])
            [] k = 10 -> next(put(<<(s.l - Len(s.b)) % 256>>))
            [] k = 11 -> next(put(args))
Call(id, which, args, s) == [Body(id, Strip(id[which]), 1, args, s) EXCEPT !.l = s.l, !.on = TRUE]
RECURSIVE MainPart(_, _, _)
MainPart(id, i, s) ==
  LET p == Strip(id[1])
      put(x) == [s EXCEPT !.b = @ \o x]
  IN IF i > Len(p) THEN s
     ELSE MainPart(id, i + 1,
       CASE p[i] = 1 -> Call(id, 2, <<3, 5>>, s)
         [] p[i] = 2 -> Call(id, 2, <<6, 7>>, s)
         [] p[i] = 3 -> Call(id, 3, <<8, s.n>>, s)
         [] p[i] = 4 -> [put(<<1>>) EXCEPT !.l = Len(s.b)]
         [] p[i] = 5 -> put(<<(s.l - Len(s.b)) % 256>>)
         [] p[i] = 6 -> put(<<s.n % 256>>))

Init == \E m \in Seqs(6, 2) : \E a \in Seqs(11, MaxLen) : \E b \in Seqs(11, MaxLen) :
           LET id == <<m, a, b>> IN
           /\ LocalOk(m, 4, 5) /\ Sound(Strip(a)) /\ Sound(Strip(b)) /\ 3 \notin {b[i] : i \in 1..MaxLen}
           /\ w = State0(id)
Next == <<Steps(w)>>_w
Spec == Init /\ [][Next]_w

Expected(id) == MainPart(id, 1, [n |-> 0, b |-> <<>>, l |-> 0, on |-> TRUE]).b
\* the text of {0} and of n is taken when the line is executed, so n may have changed: those programs are left to the traces
Late(id) == 3 \in {id[1][i] : i \in 1..2} /\ 7 \in {id[3][i] : i \in 1..MaxLen}
Check(v) == Ended(v) => v.exit = 0 /\ v.ifs = <<BaseIf>> /\ v.reps = <<>> /\ v.mlev = 0
                        /\ (Late(v.tid) \/ Emitted(v.log, 1) = Expected(v.tid))
Theorem == [][Check(w')]_w
=============================================================================
