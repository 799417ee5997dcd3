-------------------------------- MODULE MCSeg -------------------------------
(***************************************************************************)
(* C09, C11: every program of origins, segments, relocation, data and      *)
(* labels up to a length, in all three output formats.  Labels get the     *)
(* addresses, and memory the bytes, that counting by hand gives; the files *)
(* of the three formats describe that memory.                              *)
(***************************************************************************)
EXTENDS MCBase

\* a program is <<format, lines>>
Line(k, i) == CASE k = 1 -> L(" seg a")
                [] k = 2 -> L(" seg.u b")
                [] k = 3 -> L(" org 24")
                [] k = 4 -> L(" org *+3")
                [] k = 5 -> L(" rorg 130")
                [] k = 6 -> L(" rend")
                [] k = 7 -> LN(" dc ", 200 + i)
                [] k = 8 -> L(" ds 2")
                [] k = 9 -> T("l") \o DecNat(i) \o T(" dc.w l") \o DecNat(i) \o <<LF>>
                [] k = 10 -> L(" align 4")
K == 10
MCTest(id) == [Program(<<L(" processor 6502"), L(" seg.u b"), L(" org 64"), L(" seg a"), L(" org 16")>>
                       \o [i \in 1..Len(id[2]) |-> Line(id[2][i], i)]) EXCEPT !.opt.fmt = id[1]]

Init == \E m \in 0..MaxLen : \E p \in [1..m -> 1..K] : \E f \in 1..3 : w = State0(<<f, p>>)
Next == <<Steps(w)>>_w
Spec == Init /\ [][Next]_w

--------------------------------------------------------------------------
(* by hand: c the current segment, o its origins, r its relocated addresses (-1: none),
   m the bytes put down as <<address, bytes>> in order, l the labels *)
Start0 == [c |-> 1, o |-> <<16, 64>>, r |-> <<-1, -1>>, m |-> <<>>, l |-> {}]
Here(s) == IF s.r[s.c] >= 0 THEN s.r[s.c] ELSE s.o[s.c]
Grow(s, n) == [s EXCEPT !.o[s.c] = @ + n, !.r[s.c] = IF @ >= 0 THEN @ + n ELSE @]
Put(s, b) == IF b = <<>> THEN s
             ELSE [Grow(s, Len(b)) EXCEPT !.m = IF s.c = 1 THEN Append(@, <<s.o[1], b>>) ELSE @]
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Hand(_, _, _)
Hand(p, i, s) ==
  IF i > Len(p) THEN s
  ELSE Hand(p, i + 1,
    CASE p[i] = 1 -> [s EXCEPT !.c = 1]
      [] p[i] = 2 -> [s EXCEPT !.c = 2]
      [] p[i] = 3 -> [s EXCEPT !.o[s.c] = 24]
      [] p[i] = 4 -> [s EXCEPT !.o[s.c] = Here(s) + 3]
      [] p[i] = 5 -> [s EXCEPT !.r[s.c] = 130]
      [] p[i] = 6 -> [s EXCEPT !.r[s.c] = -1]
      [] p[i] = 7 -> Put(s, <<200 + i>>)
      [] p[i] = 8 -> Put(s, Zeros(2))
      [] p[i] = 9 -> [Put(s, LoHi(Here(s))) EXCEPT !.l = @ \union {<<LN("l", i), Here(s)>>}]
      [] p[i] = 10 -> Put(s, Zeros((4 - (Here(s) % 4)) % 4)))
Result0(p) == Hand(p, 1, Start0)
Cells(m) == UNION {{<<m[j][1] + k - 1, m[j][2][k]>> : k \in 1..Len(m[j][2])} : j \in 1..Len(m)}
Backwards(m) == \E j \in 1..(Len(m) - 1) : m[j + 1][1] < m[j][1] + Len(m[j][2])
RECURSIVE Fill(_, _, _)
Fill(m, j, at) == IF j > Len(m) THEN <<>>
                  ELSE [k \in 1..(m[j][1] - at) |-> 255] \o m[j][2] \o Fill(m, j + 1, m[j][1] + Len(m[j][2]))

\* reading the files back
RECURSIVE ReadHunks(_, _)
ReadHunks(f, k) == IF k > Len(f) THEN <<>>
                   ELSE LET n == Word(f, k + 2) IN <<<<Word(f, k), SubSeq(f, k + 4, k + 3 + n)>>>> \o ReadHunks(f, k + 4 + n)
Decoded(fmt, f, first) == CASE fmt = 1 -> IF f = <<>> THEN <<>> ELSE <<<<Word(f, 1), From(f, 3)>>>>
                            [] fmt = 2 -> ReadHunks(f, 1)
                            [] fmt = 3 -> <<<<first, f>>>>
Agrees(v, h) ==
  LET m == h.m
      first == IF m = <<>> THEN 0 ELSE m[1][1]
      f == OutFile(v)
      d == Decoded(v.opt.fmt, f, first)
  IN /\ {<<x, v.syms[x].v[1]>> : x \in {y \in DOMAIN v.syms : y[1] = 108}} = {<<SubSeq(y[1], 1, Len(y[1]) - 1), y[2]>> : y \in h.l}
     /\ IF v.opt.fmt = 2 THEN Cells(d) = Cells(m)
        ELSE /\ Cells(m) \subseteq Cells(d)
             /\ \A c \in Cells(d) \ Cells(m) : c[2] = 255
             /\ Len(d) <= 1
             /\ (m = <<>> => f = <<>>)
             /\ (m # <<>> => d = <<<<first, Fill(m, 1, first)>>>>)
CheckHand(v, h) == IF v.opt.fmt # 2 /\ Backwards(h.m) THEN v.exit = E_REVERSE ELSE v.exit = 0 /\ Agrees(v, h)
Check(v) == Ended(v) => CheckHand(v, Result0(v.tid[2]))
Theorem == [][Check(w')]_w
=============================================================================
