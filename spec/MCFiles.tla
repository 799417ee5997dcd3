------------------------------- MODULE MCFiles ------------------------------
(***************************************************************************)
(* C15: every program of a few lines with any stretch of it moved into an  *)
(* included file (and a stretch of that into another) comes to the same as *)
(* in one piece; END ends only the file it is in.  A file is looked for in *)
(* the current directory and then in the -I directories in order.          *)
(***************************************************************************)
EXTENDS MCBase

Line(k, i) == CASE k = 1 -> LN(" dc ", 100 + i)
                [] k = 2 -> L("z dc 1")
                [] k = 3 -> L(" dc.w z")
                [] k = 4 -> L(".x dc 2")
                [] k = 5 -> L(" subroutine")
                [] k = 6 -> L(" dc.w .x")
                [] k = 7 -> L("n set n+1")
                [] k = 8 -> L(" dc n")
                [] k = 9 -> L(" org *+3")
                [] k = 10 -> L(" echo n")
                [] k = 11 -> L(" list off")
K == 11
Pre == <<L(" org 16"), L("n set 0")>>
Post == <<L("n set 0")>>
All(p) == [i \in 1..Len(p) |-> Line(p[i], i)]
Incl(s) == T(" include \"") \o T(s) \o L("\"")
IncFile(s, fs, t, end) == (T(s) :> (fs \o (IF end THEN <<L(" end"), L(" nonsense"), L(" dc 77")>> ELSE <<>>))) @@ t

\* <<"cut", lines, i, j, k, m, end>>: lines i..j are in a.h, and of those k..m in b.h (m = 0: none)
Pieces(id) ==
  LET ls == All(id[2])
      i == id[3]  j == id[4]  k == id[5]  m == id[6]
      inner == IF m = 0 THEN SubSeq(ls, i, j) ELSE SubSeq(ls, i, k - 1) \o <<Incl("b.h")>> \o SubSeq(ls, m + 1, j)
      main == Pre \o SubSeq(ls, 1, i - 1) \o <<Incl("a.h")>> \o SubSeq(ls, j + 1, Len(ls)) \o Post
      fs == IncFile("a.h", inner, IF m = 0 THEN EmptyMap ELSE IncFile("b.h", SubSeq(ls, k, m), EmptyMap, id[7]), id[7])
  IN [Program(main) EXCEPT !.files = @ @@ fs]
Whole(p) == Program(Pre \o All(p) \o Post)

\* <<"path", where: set of places that have the file, dirs: order of -I>>; place 0 is the current directory
Dir(k) == CASE k = 1 -> T("d1") [] k = 2 -> T("d2/") [] k = 3 -> T("d3")
Place(k) == CASE k = 0 -> T("f.h") [] k = 1 -> T("d1/f.h") [] k = 2 -> T("d2/f.h") [] k = 3 -> T("d3/f.h")
Paths(id) == [Program(<<L(" org 16"), Incl("f.h"), L(" dc 9")>>) EXCEPT
               !.files = @ @@ [n \in {Place(k) : k \in id[2]} |-> <<LN(" dc ", CHOOSE k \in 0..3 : Place(k) = n)>>],
               !.opt.defs = [k \in 1..Len(id[3]) |-> [k |-> "I", name |-> <<>>, val |-> Dir(id[3][k])]]]
MCTest(id) == CASE id[1] = "cut" -> Pieces(id) [] id[1] = "whole" -> Whole(id[2]) [] id[1] = "path" -> Paths(id)

Once(p, k) == Cardinality({i \in 1..Len(p) : p[i] = k}) <= 1
Init == \/ \E n \in 1..MaxLen : \E p \in [1..n -> 1..K] : \E i, j \in 1..n : \E k, m \in 0..n : \E e \in BOOLEAN :
             /\ i <= j /\ (m = 0 => k = 0) /\ (m > 0 => i <= k /\ k <= m /\ m <= j)
             /\ Once(p, 2) /\ Once(p, 4)
             /\ w = State0(<<"cut", p, i, j, k, m, e>>)
        \/ \E where \in SUBSET (0..3) : \E n \in 0..3 : \E d \in [1..n -> 1..3] : w = State0(<<"path", where, d>>)
Next == <<Steps(w)>>_w
Spec == Init /\ [][Next]_w

Values(v) == [m \in DOMAIN v.syms |-> <<v.syms[m].v, v.syms[m].u>>]
SameAs(v, z) == v.exit = z.exit /\ v.pass = z.pass /\ OutFile(v) = OutFile(z) /\ Values(v) = Values(z) /\ v.msgs = z.msgs
RECURSIVE First(_, _, _)
First(where, d, k) == IF k > Len(d) THEN -1 ELSE IF d[k] \in where THEN d[k] ELSE First(where, d, k + 1)
Taken(id) == IF 0 \in id[2] THEN 0 ELSE First(id[2], id[3], 1)
CheckPath(v) == LET t == Taken(v.tid) IN
                IF t < 0 THEN v.exit # 0 ELSE v.exit = 0 /\ Emitted(v.log, 1) = <<t, 9>>
Check(v) == Ended(v) => IF v.tid[1] = "path" THEN CheckPath(v) ELSE SameAs(v, Run(State0(<<"whole", v.tid[2]>>)))
Theorem == [][Check(w')]_w
=============================================================================
