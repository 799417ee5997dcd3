-------------------------------- MODULE MCHex -------------------------------
(***************************************************************************)
(* C10: a writer of HEX files that cuts every hunk into records of up to   *)
(* 16 bytes satisfies the reader that judges ftohex, for every image of up *)
(* to two hunks at addresses up to the last; and the reader refuses the    *)
(* writer's text as soon as one character of it is changed.                *)
(***************************************************************************)
EXTENDS Formats
CONSTANT MaxLen
VARIABLES w, t, i, s
MCTest(p) == 0
H == INSTANCE Hex WITH Tests <- <<>>

Sizes == {0, 1, 2, 15, 16, 17, 32, 33}
Places == {0, 1, 255, 256, 4095, 65519, 65520, 65503}
Bytes0(n, k) == [j \in 1..n |-> (j * 37 + k * 101) % 256]
Hunk(a, n, k) == LoHi(a) \o LoHi(n) \o Bytes0(n, k)
File(x) == CASE x.fmt = 1 -> IF x.n1 = 0 THEN <<>> ELSE LoHi(x.a1) \o Bytes0(x.n1, 1)
             [] x.fmt = 3 -> Bytes0(x.n1, 1)
             [] x.fmt = 2 -> Hunk(x.a1, x.n1, 1) \o (IF x.two THEN Hunk(x.a2, x.n2, 2) ELSE <<>>)
\* the lines of a text
RECURSIVE LinesOf(_, _)
LinesOf(f, from) == IF from > Len(f) THEN <<>>
                    ELSE LET e == FindIn(f, from, {CR}) IN <<SubSeq(f, from, e - 1)>> \o LinesOf(f, e + 2)
RECURSIVE Judge(_, _, _, _)
Judge(hs, ls, k, st) == IF k > Len(ls) \/ st.ph # "data" THEN <<st.ph, k - 1>>
                        ELSE Judge(hs, ls, k + 1, H!Read(hs, st.h, st.p, ls[k]))
Verdict(x, text) == LET ls == LinesOf(text, 1) IN
                    Judge(H!Input([fmt |-> x.fmt, in |-> File(x)]), ls, 1, [h |-> 1, p |-> 0, ph |-> "data"])
Accepted(x, text) == LET v == Verdict(x, text) IN v[1] = "end" /\ v[2] = Len(LinesOf(text, 1))
\* another character of the same kind at place k
Changed(text, k) == [text EXCEPT ![k] = IF @ = 48 THEN 49 ELSE IF @ = 58 THEN 59 ELSE 48]

Init == /\ t = 0 /\ i = 0 /\ s = 0
        /\ \E f \in 1..3 : \E n1 \in Sizes : \E a1 \in Places : \E two \in BOOLEAN : \E n2 \in {0, 1, 17} : \E a2 \in {0, 256, 65519} :
             /\ (f = 3 => a1 = 0) /\ (f # 2 => ~two) /\ (~two => n2 = 0 /\ a2 = 0)
             /\ a1 + n1 <= 65536
             /\ w = [fmt |-> f, n1 |-> n1, a1 |-> a1, two |-> two, n2 |-> n2, a2 |-> a2, k |-> -1]
Text0(v) == HexFile(v.fmt, File(v))
Try(v) == /\ v.k < Min(MaxLen, Len(Text0(v)))
          /\ w' = [v EXCEPT !.k = @ + 1] /\ UNCHANGED <<t, i, s>>
Next == <<Try(w)>>_w
Spec == Init /\ [][Next]_w
Check(v) == CASE v.k = 0 -> Accepted(v, Text0(v))
              [] v.k > 0 -> Text0(v)[v.k] \in {CR, LF} \/ ~Accepted(v, Changed(Text0(v), v.k))
Theorem == [][Check(w')]_w
=============================================================================
