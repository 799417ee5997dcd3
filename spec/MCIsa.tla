-------------------------------- MODULE MCIsa -------------------------------
(***************************************************************************)
(* C04: every instruction of every table driven processor with every       *)
(* syntax of operand, for values at the limits of the operand widths.      *)
(* The rule: of the encodings the instruction has for that syntax, the     *)
(* shortest one the value fits is used; when there is none the program is  *)
(* refused.                                                                *)
(***************************************************************************)
EXTENDS MCBase

CONSTANT Chosen            \* the processors used, by number

\* name, key of its table, most significant byte first
Chips == << <<"6502", "6502", FALSE>>, <<"65c02", "65c02", FALSE>>, <<"6803", "6803", TRUE>>, <<"hd6303", "6303", TRUE>>,
            <<"68705", "68705", TRUE>>, <<"68hc11", "6811", TRUE>>, <<"68908", "68908", TRUE>> >>
\* before the value, after it, the modes from narrow to wide as <<mode, bytes>>
Syntax == << <<"", "", << <<AM_IMP, 0>> >> >>,
             <<" #", "", << <<AM_IMM8, 1>>, <<AM_IMM16, 2>> >> >>,
             <<" ", "", << <<AM_BYTEADR, 1>>, <<AM_WORDADR, 2>> >> >>,
             <<" ", ",x", << <<AM_0X, 0>>, <<AM_BYTEADRX, 1>>, <<AM_WORDADRX, 2>> >> >>,
             <<" ", ",y", << <<AM_0Y, 0>>, <<AM_BYTEADRY, 1>>, <<AM_WORDADRY, 2>> >> >>,
             <<" (", ",x)", << <<AM_INDBYTEX, 1>>, <<AM_INDWORDX, 2>> >> >>,
             <<" (", "),y", << <<AM_INDBYTEY, 1>> >> >>,
             <<" (", ")", << <<AM_INDBYTE, 1>>, <<AM_INDWORD, 2>> >> >>,
             <<" ", ",sp", << <<AM_BYTEADR_SP, 1>>, <<AM_WORDADR_SP, 2>> >> >> >>
Values == <<0, 1, 127, 255, 256, 4660, 65535>>

Entry(c, m) == CpuTables[Chips[c][2]][m]
Plain(e) == e.kind = "mne" /\ e.flags = {} /\ AM_REL \notin DOMAIN e.ops /\ AM_BYTEREL \notin DOMAIN e.ops
\* the 65C02's indirect jumps have 16 bit operands only
Has(c, e, mode) == mode \in DOMAIN e.ops /\ ~(e.name = T("jmp") /\ mode \in {AM_INDBYTE, AM_INDBYTEX})
Ways(c, e, s) == SelectSeq(Syntax[s][3], LAMBDA y : Has(c, e, y[1]))
Fits(y, n) == CASE y[1] = AM_IMP -> TRUE [] y[2] = 0 -> n = 0 [] y[2] = 1 -> n < 256 [] y[2] = 2 -> TRUE
Way(c, e, s, n) == SelectSeq(Ways(c, e, s), LAMBDA y : Fits(y, n))      \* the first one is used
Good(c, e, s) == SelectSeq(Values, LAMBDA n : Way(c, e, s, n) # <<>>)

\* a program is <<processor, mnemonic, syntax, value>>; value -1: every value that fits, written out and behind a name
Write(id, t) == <<SP>> \o id[2] \o T(Syntax[id[3]][1]) \o (IF id[3] = 1 THEN <<>> ELSE t) \o T(Syntax[id[3]][2]) \o <<LF>>
MCTest(id) ==
  LET g == IF id[4] >= 0 THEN <<id[4]>> ELSE Good(id[1], Entry(id[1], id[2]), id[3])
      late == [i \in 1..Len(g) |-> Write(id, <<118>> \o DecNat(g[i]))]
      names == [i \in 1..Len(g) |-> <<118>> \o DecNat(g[i]) \o T(" equ ") \o DecNat(g[i]) \o <<LF>>]
  IN Program(<<T(" processor ") \o L(Chips[id[1]][1]), L(" org 4096")>> \o [i \in 1..Len(g) |-> Write(id, DecNat(g[i]))]
             \o (IF id[4] >= 0 THEN <<>> ELSE late \o names))
Init == \E c \in Chosen : \E m \in {x \in DOMAIN CpuTables[Chips[c][2]] : Plain(Entry(c, x))} :
        \E s \in 1..Len(Syntax) :
          LET e == Entry(c, m) IN
          \E n \in {-1} \union {Values[i] : i \in 1..Len(Values)} :
            /\ IF n = -1 THEN Ways(c, e, s) # <<>> ELSE Way(c, e, s, n) = <<>>
            /\ (Ways(c, e, s) = <<>> => n = MaxLen)
            /\ (s = 1 => n \in {-1, MaxLen})
            /\ w = State0(<<c, m, s, n>>)
Next == <<Steps(w)>>_w
Spec == Init /\ [][Next]_w

Opcode(o) == IF o > 255 THEN <<o \div 256, o % 256>> ELSE <<o>>
Coded(c, e, s, n) ==
  LET y == Way(c, e, s, n)[1]
      hi == n \div 256  lo == n % 256
  IN Opcode(e.ops[y[1]]) \o (CASE y[2] = 0 -> <<>> [] y[2] = 1 -> <<lo>> [] y[2] = 2 -> IF Chips[c][3] THEN <<hi, lo>> ELSE <<lo, hi>>)
RECURSIVE AllCoded(_, _, _, _, _)
AllCoded(c, e, s, g, i) == IF i > Len(g) THEN <<>> ELSE Coded(c, e, s, g[i]) \o AllCoded(c, e, s, g, i + 1)
Check(v) == Ended(v) => LET c == v.tid[1]  e == Entry(c, v.tid[2])  s == v.tid[3] IN
            IF v.tid[4] >= 0 THEN v.exit # 0
            ELSE LET g == Good(c, e, s)  once == AllCoded(c, e, s, g, 1) IN
                 v.exit = 0 /\ Emitted(v.log, 1) = once \o once
Theorem == [][Check(w')]_w
=============================================================================
