------------------------------ MODULE MCReport ------------------------------
(***************************************************************************)
(* C17, C18, C20: every program of lines that say something (ECHO of a     *)
(* text, of a value that changes, of one not known at first, of the sum of *)
(* bytes; LIST ON and OFF) among lines that generate bytes and define      *)
(* symbols.  What is said is counted by hand; and the program generates    *)
(* what it generates without the lines that only say something.            *)
(***************************************************************************)
EXTENDS MCBase, Reports

Line(k, i) == CASE k = 1 -> L(" echo \"e\",s")
                [] k = 2 -> L("s set s+1")
                [] k = 3 -> T("a") \o DecNat(i) \o L(" dc.b s")
                [] k = 4 -> L(" dc.w z")
                [] k = 5 -> L(" list off")
                [] k = 6 -> L(" list on")
                [] k = 7 -> L(" ds 2")
                [] k = 8 -> L(" echo z,\"x\"")
                [] k = 9 -> T("D") \o DecNat(i) \o L(" equ z+1")
                [] k = 10 -> L(" mm")
                [] k = 11 -> L(" echo ...")
                [] k = 12 -> T("c") \o DecNat(i) \o L(" eqm s")
                [] k = 13 -> L("s set \"t\"")
                [] k = 0 -> <<LF>>
K == 13
Front == <<L(" processor 6502"), L(" mac mm"), L(" echo \"m\""), L(" dc 7"), L(" endm"), L(" org 256"), L("s set 1")>>
Talk == {1, 5, 6, 8, 11}
Whole(p, sort) == [Program(Front \o [i \in 1..Len(p) |-> Line(p[i], i)] \o <<L("z equ 258")>>) EXCEPT !.opt.sort = sort, !.opt.symfile = TRUE]
MCTest(t) == Whole(t[1], t[2])

\* the whole run; ls: its list file, from: where the last pass begins in it
RECURSIVE Listing(_, _, _)
Listing(v, ls, from) ==
  IF ~Running(v) THEN [v |-> v, ls |-> ls, from |-> from]
  ELSE LET u == After(v)
           f == IF u.pass # v.pass /\ Running(u) THEN Len(ls) ELSE from
       IN Listing(u, ls \o (IF u.ph = "boot" THEN <<>> ELSE Lines(u.evs, 1)), f)
Init == \E m \in 0..MaxLen : \E p \in [1..m -> 1..K] : w = [p |-> p, sort |-> Len(p) % 3, done |-> FALSE]
Assemble(v) == ~v.done /\ w' = [p |-> v.p, sort |-> v.sort, done |-> TRUE, r |-> Listing(State0(<<v.p, v.sort>>), <<>>, 0)]
Next == <<Assemble(w)>>_w
Spec == Init /\ [][Next]_w

--------------------------------------------------------------------------
(* by hand *)
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
Texts(p, i) == {j \in 1..i : p[j] = 13}
\* s at line i: a number, or a text from the last SET to one on (one more than a text is not a number: not asked for here)
Value(p, i) == IF Texts(p, i) # {} THEN -1 ELSE 1 + Cardinality({j \in 1..i : p[j] = 2})
\* only a byte that needs a value asks for another pass; what else needs one says nothing of it if there is none
Again(p) == \E i \in 1..Len(p) : p[i] = 4
Sensible(p) == \A i \in 1..Len(p) : p[i] \in {2, 3, 12} => Texts(p, i) = {}
Bytes(p, i) == CASE p[i] = 3 -> <<Value(p, i)>> [] p[i] = 4 -> <<2, 1>> [] p[i] = 7 -> <<0, 0>> [] p[i] = 10 -> <<7>> [] OTHER -> <<>>
RECURSIVE AllBytes(_, _), Adds(_)
AllBytes(p, i) == IF i = 0 THEN <<>> ELSE AllBytes(p, i - 1) \o Bytes(p, i)
Adds(b) == IF b = <<>> THEN 0 ELSE b[1] + Adds(SubSeq(b, 2, Len(b)))
Hex0(k) == T("$") \o HexW(N(k), 1)
Said(p, i) == CASE p[i] = 1 -> <<T(" e ") \o (IF Value(p, i) = -1 THEN T("t") ELSE Hex0(Value(p, i)))>>
                [] p[i] = 8 -> <<IF Again(p) THEN T(" $102 x") ELSE T(" x")>>
                [] p[i] = 10 -> <<T(" m")>>
                [] p[i] = 11 -> <<T(" ") \o Hex0(Adds(AllBytes(p, i)))>>
                [] OTHER -> <<>>
RECURSIVE AllSaid(_, _)
AllSaid(p, i) == IF i = 0 THEN <<>> ELSE AllSaid(p, i - 1) \o Said(p, i)
\* is line i listed: LIST ON is, LIST OFF is not
Shown(p, i) == LET s == {j \in 1..i : p[j] \in {5, 6}} IN s = {} \/ p[Last(s)] = 6
RECURSIVE Numbered(_, _)
Numbered(p, i) == IF i = 0 THEN [k \in 1..7 |-> k]
                  ELSE Numbered(p, i - 1) \o (IF ~Shown(p, i) THEN <<>> ELSE IF p[i] = 10 THEN <<0, 1, 2>> ELSE <<7 + i>>)
Names(p) == {T("s"), T("z")} \union {T("a") \o DecNat(i) : i \in {j \in 1..Len(p) : p[j] = 3}}
            \union {T("D") \o DecNat(i) : i \in {j \in 1..Len(p) : p[j] = 9}} \union {T("c") \o DecNat(i) : i \in {j \in 1..Len(p) : p[j] = 12}}

Digits0 == 48..57
IsNumbered(l) == Len(l) >= 7 /\ l[7] \in Digits0 /\ \A k \in 1..6 : l[k] \in Digits0 \union {SP}
NumberOf(l) == Atoi(SubSeq(l, SkipIn(l, 1, {SP}), 7), 1)
RECURSIVE Numbers(_, _)
Numbers(ls, i) == IF i > Len(ls) THEN <<>> ELSE (IF IsNumbered(ls[i]) THEN <<NumberOf(ls[i])>> ELSE <<>>) \o Numbers(ls, i + 1)

Silent(p) == [i \in 1..Len(p) |-> IF p[i] \in Talk THEN 0 ELSE p[i]]
Check(v) ==
  (v.done /\ Sensible(v.p)) =>
  LET p == v.p
      z == v.r.v
      n0 == Len(p)
      end == IF Shown(p, n0) THEN <<8 + n0>> ELSE <<>>
  IN /\ z.exit = 0
     /\ z.pass = IF Again(p) THEN 2 ELSE 1
     /\ z.msgs = AllSaid(p, n0)
     /\ Emitted(z.log, 1) = AllBytes(p, n0)
     /\ DOMAIN z.syms = Names(p)
     /\ z.syms[T("z")].v = N(258)
     /\ \A i \in 1..n0 : /\ p[i] = 3 => z.syms[T("a") \o DecNat(i)].v = N(256 + Len(AllBytes(p, i - 1)))
                         /\ p[i] = 9 => LET d == z.syms[T("D") \o DecNat(i)] IN d.u = ~Again(p) /\ (Again(p) => d.v = N(259))
     /\ Value(p, n0) # -1 => z.syms[T("s")].v = N(Value(p, n0))
     /\ Numbers(SubSeq(v.r.ls, v.r.from + 1, Len(v.r.ls)), 1) = Numbered(p, n0) \o end
     /\ OutFile(z) = OutFile(Result(<<Silent(p), 0>>))
Theorem == [][Check(w')]_w

(* predictions: everything the run leaves and says *)
InOrder(z, a, b) == CASE z.opt.sort = 0 -> LexLe(Lower(a), Lower(b), 1)
                      [] z.opt.sort = 1 -> Le(z.syms[a].v, z.syms[b].v)
                      [] z.opt.sort = 2 -> z.syms[a].ord <= z.syms[b].ord
ReportAll(v) ==
  v.done =>
  LET z == v.r.v
      x == MCTest(<<v.p, v.sort>>)
  IN PrintT(<<"RUN", ToJson([files |-> {<<m, x.files[m]>> : m \in DOMAIN x.files}, fmt |-> x.opt.fmt, strict |-> x.opt.strict, dirs |-> <<>>,
                             exit |-> z.exit, out |-> IF z.exit = 0 THEN OutFile(z) ELSE <<>>, list |-> v.r.ls, sort |-> v.sort,
                             stdout |-> Lines(StdOut(z), 1), passes |-> z.pass,
                             \* symbols that may stand in either order are not told apart
                             sym |-> {<<Norm(SymLine(m, z.syms[m])), Cardinality({q \in DOMAIN z.syms : ~InOrder(z, m, q)})>> : m \in DOMAIN z.syms}])>>)
AllReports == [][ReportAll(w')]_w
=============================================================================
