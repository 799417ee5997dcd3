------------------------------ MODULE MCBranch ------------------------------
(***************************************************************************)
(* C06: branches of every kind to targets at every distance around the     *)
(* limits, forwards by label and backwards by label, plain and relocated.  *)
(* The displacement that was put down, added to the address the processor  *)
(* counts from, is the target; a distance that does not fit is refused.    *)
(***************************************************************************)
EXTENDS MCBase

\* processor, instruction before the target, bytes of the instruction, where the displacement counts from
Forms == << <<"6502", " bne ", 2, 2>>, <<"65c02", " bra ", 2, 2>>, <<"65c02", " bbr3 18,", 3, 3>>, <<"6803", " bsr ", 2, 2>>,
            <<"hd6303", " bcc ", 2, 2>>, <<"68705", " brset 2,18,", 3, 3>>, <<"68705", " bra ", 2, 2>>, <<"68hc11", " brclr 18,4,", 4, 4>>,
            <<"68hc11", " brset 1,y,4,", 5, 5>>, <<"68908", " cbeq 18,", 3, 3>>, <<"68908", " dbnz 18,", 3, 3>>,
            <<"68908", " dbnza ", 2, 2>>, <<"68908", " cbeqa 5,", 3, 3>>, <<"68908", " dbnz 5,sp,", 4, 4>>, <<"f8", " br ", 2, 1>>, <<"f8", " bt 3,", 2, 1>>, <<"f8", " bf 9,", 2, 1>> >>
\* a program is <<form, bytes between, forwards, relocated to>>
Target == T("target")
Jump(f) == T(Forms[f][2]) \o Target \o <<LF>>
MCTest(id) ==
  LET f == id[1]
      gap == LN(IF Forms[f][1] = "f8" THEN " res " ELSE " ds ", id[2])
      lab == Target \o <<LF>>
      org == IF id[4] = 0 THEN <<L(" org 4096")>> ELSE <<L(" org 4096"), LN(" rorg ", id[4])>>
  IN Program(<<T(" processor ") \o L(Forms[f][1])>> \o org
             \o (IF id[3] THEN <<Jump(f), gap, lab>> ELSE <<lab, gap, Jump(f)>>) \o <<L(" dc 1")>>)
Distances == 0..3 \union (121..134) \union {255, 256, 257}
Init == \E f \in 1..Len(Forms) : \E d \in {n \in Distances : n < 4 \/ n > 134 \/ (n >= 128 - MaxLen /\ n <= 127 + MaxLen)} :
        \E fw \in BOOLEAN : \E r \in {0, 512, 65408} : w = State0(<<f, d, fw, r>>)
Next == <<Steps(w)>>_w
Spec == Init /\ [][Next]_w

Signed(b) == IF b >= 128 THEN b - 256 ELSE b
\* the distance from the address counted from to the target
Distance(id) == LET n == Forms[id[1]][3]  c == Forms[id[1]][4] IN
                IF id[3] THEN n + id[2] - c ELSE 0 - id[2] - c
Check(v) == Ended(v) =>
  LET id == v.tid
      n == Forms[id[1]][3]
      d == Distance(id)
      b == Emitted(v.log, 1)
      disp == IF id[3] THEN b[n] ELSE b[id[2] + n]
  IN IF d < -128 \/ d > 127 THEN v.exit # 0
     ELSE v.exit = 0 /\ Len(b) = n + id[2] + 1 /\ Signed(disp) = d
Theorem == [][Check(w')]_w
=============================================================================
