--------------------------------- MODULE F8 ---------------------------------
(***************************************************************************)
(* The Fairchild F8's operand classes: registers, short constants,         *)
(* one and two byte operands, branches.                                    *)
(***************************************************************************)
EXTENDS Instr

F8Err(w, code, m, arg, abort) == Err(w, code, abort, m.name \o <<SP>> \o arg)
ULe(v, n) == ~ULt(N(n), v)

\* one numeric operand: [w, u = unresolved, v]
F8Value(w, s) ==
  LET r == Eval(w, s, FALSE)
      x == r.l[1]
  IN IF ~Running(r.w) THEN [w |-> r.w, u |-> FALSE, v |-> W0]
     ELSE IF Len(r.l) > 1 \/ x.am # AM_BYTEADR
     THEN [w |-> Err(r.w, E_SYNTAX, TRUE, s), u |-> FALSE, v |-> W0]
     ELSE IF x.u THEN [w |-> Redo(r.w, R_MNE), u |-> TRUE, v |-> W0]
     ELSE [w |-> r.w, u |-> FALSE, v |-> x.v]

ScratchName == (T("s") :> 12) @@ (T("(is)") :> 12) @@ (T("i") :> 13) @@ (T("(is)+") :> 13)
            @@ (T("d") :> 14) @@ (T("(is)-") :> 14) @@ (T("j") :> 9) @@ (T("hu") :> 10) @@ (T("hl") :> 11)
\* a scratchpad register: [w, u, r]
Scratch(w, s) ==
  IF Lower(s) \in DOMAIN ScratchName THEN [w |-> w, u |-> FALSE, r |-> ScratchName[Lower(s)]]
  ELSE LET q == F8Value(w, s) IN
       IF q.u THEN [w |-> q.w, u |-> TRUE, r |-> 0]
       ELSE IF ~ULe(q.v, 14) THEN [w |-> Err(q.w, E_LTF, TRUE, s), u |-> FALSE, r |-> 0]
       ELSE [w |-> q.w, u |-> FALSE, r |-> IntOf(q.v)]

SpecialName == (T("a") :> "A") @@ (T("dc0") :> "DC0") @@ (T("dc") :> "DC0") @@ (T("h") :> "H") @@ (T("is") :> "IS")
            @@ (T("k") :> "K") @@ (T("ku") :> "KU") @@ (T("kl") :> "KL") @@ (T("pc0") :> "PC0") @@ (T("p0") :> "PC0")
            @@ (T("pc1") :> "PC1") @@ (T("p") :> "PC1") @@ (T("q") :> "Q") @@ (T("qu") :> "QU") @@ (T("ql") :> "QL")
            @@ (T("w") :> "W")
\* register to register moves between special registers
LrTable == (<<"A", "IS">> :> 10) @@ (<<"A", "KL">> :> 1) @@ (<<"A", "KU">> :> 0) @@ (<<"A", "QL">> :> 3)
        @@ (<<"A", "QU">> :> 2) @@ (<<"DC0", "H">> :> 16) @@ (<<"DC0", "Q">> :> 15) @@ (<<"H", "DC0">> :> 17)
        @@ (<<"IS", "A">> :> 11) @@ (<<"K", "PC1">> :> 8) @@ (<<"KL", "A">> :> 5) @@ (<<"KU", "A">> :> 4)
        @@ (<<"PC0", "Q">> :> 13) @@ (<<"PC1", "K">> :> 9) @@ (<<"Q", "DC0">> :> 14) @@ (<<"QL", "A">> :> 7)
        @@ (<<"QU", "A">> :> 6)
LrOpcode(d, s) ==   \* [n = special name or "", r = scratchpad number]
  IF d.n # "" /\ s.n # "" THEN IF <<d.n, s.n>> \in DOMAIN LrTable THEN LrTable[<<d.n, s.n>>] ELSE -1
  ELSE IF d.n = "A" /\ s.n = "" THEN 64 + s.r
  ELSE IF d.n = "" /\ s.n = "A" THEN 80 + d.r
  ELSE IF d.n = "W" /\ s.n = "" /\ s.r = 9 THEN 29
  ELSE IF d.n = "" /\ s.n = "W" /\ d.r = 9 THEN 30
  ELSE -1

CountCommas(s) == Cardinality({i \in 1..Len(s) : s[i] = 44})

F8Reg(w, s) == IF Lower(s) \in DOMAIN SpecialName
               THEN [w |-> w, u |-> FALSE, n |-> SpecialName[Lower(s)], r |-> 0]
               ELSE LET q == Scratch(w, s) IN [w |-> q.w, u |-> q.u, n |-> "", r |-> q.r]
ExecLr(w0, m) ==
  LET w  == ProgramLabel(w0, w0.lab)
      s  == w.arg
      i  == Find1(s, 44)
      a0 == SubSeq(s, 1, i - 1)
      a1 == IF a0 # <<>> /\ a0[Len(a0)] = SP THEN SubSeq(a0, 1, Len(a0) - 1) ELSE a0
      b1 == IF At(s, i + 1) = SP THEN From(s, i + 2) ELSE From(s, i + 1)
      d  == F8Reg(w, a1)
      r  == F8Reg(d.w, b1)
      opc == LrOpcode(d, r)
      cut(v) == [v EXCEPT !.arg = a1]        \* the listing shows the operand as the parser left it
  IN IF CountCommas(s) # 1 THEN F8Err(w, E_SYNTAX, m, s, FALSE)
     ELSE IF d.u THEN cut(EmitBytes(d.w, <<0>>))
     ELSE IF r.u THEN cut(EmitBytes(r.w, <<0>>))
     ELSE IF opc < 0 THEN F8Err(r.w, E_COMBO, m, s, TRUE)
     ELSE EmitBytes(r.w, <<opc>>)

F8Branch(w0, opc, s) ==
  LET q == F8Value(ProgramLabel(w0, w0.lab), s)
      d == Sub(Sub(q.v, PC(q.w)), N(1))
  IN IF q.u THEN EmitBytes(q.w, <<0, 0>>)
     ELSE IF PCUnk(q.w) THEN EmitBytes(Redo(q.w, R_MNE), <<opc, 0>>)
     ELSE IF Lt(N(127), d) \/ Lt(d, N(-128))
     THEN EmitBytes(Redo(Err(q.w, E_BRANCH, FALSE, DecLow32(d)), R_BRANCH), <<opc, 0>>)
     ELSE EmitBytes(q.w, <<opc, ByteN(d, 0)>>)

ExecBfBt(w, m) ==
  LET s  == w.arg
      i  == Find1(s, 44)
      q  == F8Value(w, SubSeq(s, 1, i - 1))
      isf == m.name[2] = 102
      lim == IF isf THEN 15 ELSE 7
      big == ~ULe(q.v, lim)
      w1 == IF big THEN F8Err(q.w, IF isf THEN E_LT10 ELSE E_LT8, m, s, FALSE) ELSE q.w
      v  == ByteN(q.v, 0) % (lim + 1)
  IN IF CountCommas(s) # 1 THEN F8Err(w, E_SYNTAX, m, s, FALSE)
     ELSE IF q.u THEN [EmitBytes(q.w, <<0, 0>>) EXCEPT !.arg = SubSeq(s, 1, i - 1)]
     ELSE F8Branch(w1, m.ops[AM_IMP] + v, From(s, i + 1))

F8Kinds == {"ins_outs", "sl_sr", "lis", "lisu_lisl", "sreg_op", "lr", "branch", "bf_bt", "wordop", "byteop"}
ExecF8(w0, m) ==
  LET w   == ProgramLabel(w0, w0.lab)
      q   == F8Value(w, w.arg)
      low == ByteN(q.v, 0)
      Chk(n, code) == IF ULe(q.v, n) THEN q.w ELSE F8Err(q.w, code, m, w.arg, FALSE)
      g   == Scratch(w, w.arg)
  IN CASE m.kind = "lr" -> ExecLr(w0, m)
       [] m.kind = "bf_bt" -> ExecBfBt(w0, m)
       [] m.kind = "branch" -> F8Branch(w0, m.ops[AM_IMP], w0.arg)
       [] m.kind = "sreg_op" -> EmitBytes(g.w, <<m.ops[AM_IMP] + g.r>>)
       [] m.kind = "ins_outs" -> EmitBytes(Chk(15, E_LT10), <<m.ops[AM_IMP] + (low % 16)>>)
       [] m.kind = "lis" -> EmitBytes(Chk(15, E_LT10), <<112 + (low % 16)>>)
       [] m.kind = "lisu_lisl" -> EmitBytes(Chk(7, E_LT8), <<m.ops[AM_IMP] + (low % 8)>>)
       [] m.kind = "wordop" -> EmitBytes(Chk(65535, E_VLT10000), <<m.ops[AM_IMP], ByteN(q.v, 1), low>>)
       [] m.kind = "byteop" -> EmitBytes(Chk(255, E_LT100), <<m.ops[AM_IMP], low>>)
       [] m.kind = "sl_sr" -> IF q.u THEN EmitBytes(q.w, <<0>>)
                              ELSE IF q.v = W1 THEN EmitBytes(q.w, <<m.ops[AM_IMP]>>)
                              ELSE IF q.v = N(4) THEN EmitBytes(q.w, <<m.ops[AM_IMP] + 2>>)
                              ELSE EmitBytes(F8Err(q.w, E_1OR4, m, w.arg, FALSE), <<0>>)
=============================================================================
