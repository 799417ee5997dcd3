------------------------------ MODULE MCOpcodes -----------------------------
(***************************************************************************)
(* C04, C05: the opcode tables have the structure the processors'          *)
(* documentation gives them.  This is what the tables are checked with     *)
(* apart from being compared with the assembler's.                         *)
(***************************************************************************)
EXTENDS Isa

VARIABLE x
MCTest(p) == 0
Chips == {"6502", "65c02", "6803", "6303", "68705", "6811", "68908", "f8"}
Tb(c) == CpuTables[c]
Code(c, name, mode) == Tb(c)[T(name)].ops[mode]
\* all <<mnemonic, mode, opcode>>
Entries(c) == UNION {{<<m, a, Tb(c)[m].ops[a]>> : a \in DOMAIN Tb(c)[m].ops} : m \in DOMAIN Tb(c)}
Modes(c, name) == DOMAIN Tb(c)[T(name)].ops

\* names for one instruction
Alias(c) == {{T(p[1]), T(p[2])} : p \in
  {<<"asl", "lsl">>, <<"asla", "lsla">>, <<"aslb", "lslb">>, <<"asld", "lsld">>, <<"aslx", "lslx">>, <<"bcc", "bhs">>, <<"bcs", "blo">>}
  \union (IF c = "68705" THEN {<<"decx", "dex">>, <<"incx", "inx">>, <<"asl", "asla">>, <<"asl", "lsla">>, <<"lsl", "asla">>, <<"lsl", "lsla">>,
                               <<"asr", "asra">>, <<"clr", "clra">>, <<"com", "coma">>, <<"dec", "deca">>, <<"inc", "inca">>, <<"lsr", "lsra">>,
                               <<"neg", "nega">>, <<"rol", "rola">>, <<"ror", "rora">>, <<"tst", "tsta">>} ELSE {})
  \union (IF c = "f8" THEN {<<"bf", "br">>} ELSE {})}
\* the 65C02's jmp has a placeholder for operands the assembler widens
Distinct(c) == \A p, q \in {e \in Entries(c) : ~(c = "65c02" /\ e[1] = T("jmp") /\ e[3] = 66)} :
                 p # q /\ p[3] = q[3] => {p[1], q[1]} \in Alias(c)
\* a prefix is not an instruction, so a stream of instructions can be read back
PrefixFree(c) == \A p \in Entries(c) : p[3] > 255 => \A q \in Entries(c) : q[3] # p[3] \div 256
Aliased(c) == \A p \in {<<"asl", "lsl">>, <<"bcc", "bhs">>, <<"bcs", "blo">>} :
                T(p[1]) \in DOMAIN Tb(c) /\ T(p[2]) \in DOMAIN Tb(c) => Tb(c)[T(p[1])].ops = Tb(c)[T(p[2])].ops

--------------------------------------------------------------------------
(* the 6502: opcode = aaabbbcc *)
Group1 == <<"ora", "and", "eor", "adc", "sta", "lda", "cmp", "sbc">>
Group2 == <<"asl", "rol", "lsr", "ror", "stx", "ldx", "dec", "inc">>
Column1 == (AM_INDBYTEX :> 0) @@ (AM_BYTEADR :> 1) @@ (AM_IMM8 :> 2) @@ (AM_WORDADR :> 3) @@ (AM_INDBYTEY :> 4) @@ (AM_BYTEADRX :> 5)
           @@ (AM_WORDADRY :> 6) @@ (AM_WORDADRX :> 7)
Column2 == (AM_IMM8 :> 0) @@ (AM_BYTEADR :> 1) @@ (AM_IMP :> 2) @@ (AM_WORDADR :> 3) @@ (AM_BYTEADRX :> 5) @@ (AM_BYTEADRY :> 5)
           @@ (AM_WORDADRX :> 7) @@ (AM_WORDADRY :> 7)
Illegal1 == <<"slo", "rla", "sre", "rra", "sax", "lax", "dcp", "isb">>       \* cc = 3: both groups at once
Column3 == (AM_INDBYTEX :> 0) @@ (AM_BYTEADR :> 1) @@ (AM_WORDADR :> 3) @@ (AM_INDBYTEY :> 4) @@ (AM_BYTEADRX :> 5) @@ (AM_BYTEADRY :> 5)
           @@ (AM_WORDADRY :> 6) @@ (AM_WORDADRX :> 7)
Branches == <<"bpl", "bmi", "bvc", "bvs", "bcc", "bcs", "bne", "beq">>
Flags == << <<"clc", 24>>, <<"sec", 56>>, <<"cli", 88>>, <<"sei", 120>>, <<"tya", 152>>, <<"clv", 184>>, <<"cld", 216>>, <<"sed", 248>> >>
Grid(c, group, column, cc, i) == \A a \in Modes(c, group[i]) :
  a # AM_INDBYTE => a \in DOMAIN column /\ Code(c, group[i], a) = 32 * (i - 1) + 4 * column[a] + cc
Mos(c) == /\ \A i \in 1..8 : Grid(c, Group1, Column1, 1, i) /\ Grid(c, Group2, Column2, 2, i)
          /\ \A i \in 1..8 : DOMAIN Column1 \ {AM_IMM8} \subseteq Modes(c, Group1[i]) /\ ((AM_IMM8 \in Modes(c, Group1[i])) = (i # 5))
          /\ \A i \in 1..8 : Code(c, Branches[i], AM_REL) = 32 * (i - 1) + 16
          /\ \A i \in 1..8 : Code(c, Flags[i][1], AM_IMP) = Flags[i][2]
          /\ \A a \in Modes(c, "ldy") : Code(c, "ldy", a) = Code(c, "lda", a) - (IF a = AM_IMM8 THEN 9 ELSE 1)
          /\ Code(c, "jsr", AM_WORDADR) = 32 /\ Code(c, "rts", AM_IMP) = 96 /\ Code(c, "rti", AM_IMP) = 64 /\ Code(c, "brk", AM_IMP) = 0
          /\ Code(c, "jmp", AM_INDWORD) = Code(c, "jmp", AM_WORDADR) + 32
Undocumented == \A i \in 1..8 : \A a \in Modes("6502", Illegal1[i]) :
  /\ a \in DOMAIN Column3
  /\ (a = AM_WORDADRY /\ i = 6) \/ Code("6502", Illegal1[i], a) = 32 * (i - 1) + 4 * Column3[a] + 3
\* the CMOS version: indirect without index is column 4 of group 2, bit instructions by their number
Cmos == /\ \A i \in 1..8 : Code("65c02", Group1[i], AM_INDBYTE) = 32 * (i - 1) + 18
        /\ \A k \in 0..7 : LET n(s) == [i \in 1..4 |-> IF i < 4 THEN T(s)[i] ELSE 48 + k] IN
             /\ Tb("65c02")[n("rmb")].ops = (AM_BYTEADR :> (16 * k + 7)) /\ Tb("65c02")[n("smb")].ops = (AM_BYTEADR :> (16 * k + 135))
             /\ Tb("65c02")[n("bbr")].ops = (AM_BYTEREL :> (16 * k + 15)) /\ Tb("65c02")[n("bbs")].ops = (AM_BYTEREL :> (16 * k + 143))
        /\ Code("65c02", "jmp", AM_INDWORDX) = 124
        /\ \A a \in Modes("65c02", "trb") : Code("65c02", "trb", a) = Code("65c02", "tsb", a) + 16
        /\ \A m \in DOMAIN Tb("65c02") \intersect DOMAIN Tb("6502") : \A a \in DOMAIN Tb("65c02")[m].ops :
             (a \in DOMAIN Tb("6502")[m].ops => Tb("65c02")[m].ops[a] = Tb("6502")[m].ops[a])

--------------------------------------------------------------------------
(* Motorola: the addressing mode is the column, the operation the row *)
Wide(o) == o % 256
Low(o) == o % 16
RowOf(o) == (o % 256) \div 16
Conditions == <<"bra", "brn", "bhi", "bls", "bcc", "bcs", "bne", "beq">>
Arith6803(e) == AM_WORDADR \in DOMAIN e.ops
Cols6803(e, a) == \* the accumulator's two sets of columns
  CASE a \in {AM_IMM8, AM_IMM16} -> RowOf(e.ops[a]) \in {8, 12}
    [] a = AM_BYTEADR -> RowOf(e.ops[a]) \in {9, 13}
    [] a \in {AM_BYTEADRX, AM_BYTEADRY} -> RowOf(e.ops[a]) \in {6, 10, 14}
    [] a = AM_WORDADR -> RowOf(e.ops[a]) \in {7, 11, 15}
Row6803(e) == \A a, b \in DOMAIN e.ops : Low(e.ops[a]) = Low(e.ops[b])
Step6803(e) == LET at(a) == Wide(e.ops[a]) IN
  /\ (AM_BYTEADRX \in DOMAIN e.ops => at(AM_WORDADR) = at(AM_BYTEADRX) + 16)
  /\ (AM_BYTEADRY \in DOMAIN e.ops => at(AM_BYTEADRY) = at(AM_BYTEADRX))
  /\ (AM_BYTEADR \in DOMAIN e.ops /\ RowOf(e.ops[AM_WORDADR]) > 7 => at(AM_WORDADR) = at(AM_BYTEADR) + 32)
  /\ \A a \in {AM_IMM8, AM_IMM16} \intersect DOMAIN e.ops : at(AM_WORDADR) = at(a) + 48
Motorola(c) == /\ \A m \in DOMAIN Tb(c) : LET e == Tb(c)[m] IN
                    e.flags = {} /\ Arith6803(e) => (\A a \in DOMAIN e.ops : Cols6803(e, a)) /\ Row6803(e) /\ Step6803(e)
               /\ \A i \in 1..8 : Code(c, Conditions[i], AM_REL) = 31 + i
\* the 68HC11's Y forms: a prefix before the X form; the forms that concern Y itself have the prefixes exchanged
Hc11 == \A m \in DOMAIN Tb("6811") : LET o == Tb("6811")[m].ops
                                         y == m \in {T("cpy"), T("ldy"), T("sty")}
                                         d == m = T("cpd")
                                         x1 == m \in {T("cpx"), T("ldx"), T("stx")}
        IN AM_BYTEADRY \in DOMAIN o =>
           /\ o[AM_BYTEADRX] \div 256 = (IF y \/ d THEN 26 ELSE 0)
           /\ o[AM_BYTEADRY] \div 256 = (IF x1 \/ d THEN 205 ELSE 24)
           /\ \A a \in DOMAIN o \ {AM_BYTEADRX, AM_BYTEADRY} : o[a] \div 256 = (IF y THEN 24 ELSE IF d THEN 26 ELSE 0)
Contains(c, d) == \A m \in DOMAIN Tb(d) : m \in DOMAIN Tb(c) /\ \A a \in DOMAIN Tb(d)[m].ops :
                                          a \in DOMAIN Tb(c)[m].ops /\ Tb(c)[m].ops[a] = Tb(d)[m].ops[a]
\* 68705 and 68908: rows of the register/memory group, then of the read modify write group
Row05 == (AM_IMM8 :> 10) @@ (AM_BYTEADR :> 11) @@ (AM_WORDADR :> 12) @@ (AM_WORDADRX :> 13) @@ (AM_BYTEADRX :> 14) @@ (AM_0X :> 15)
         @@ (AM_BYTEADR_SP :> 14) @@ (AM_WORDADR_SP :> 13)
RowRmw == (AM_BYTEADR :> 3) @@ (AM_IMP :> 4) @@ (AM_BYTEADRX :> 6) @@ (AM_0X :> 7) @@ (AM_BYTEADR_SP :> 6) @@ (AM_INDBYTEX :> 6)
Other05 == {T(s) : s \in {"cphx", "ldhx", "sthx", "mov", "movp", "xmov"}}
Hc05(c) == /\ \A m \in DOMAIN Tb(c) \ Other05 : LET o == Tb(c)[m].ops IN
                AM_BYTEADR \in DOMAIN o =>
                  /\ \A a, b \in DOMAIN o : Low(o[a]) = Low(o[b])
                  /\ \A a \in DOMAIN o : RowOf(o[a]) = IF AM_WORDADR \in DOMAIN o THEN Row05[a] ELSE RowRmw[a]
                  /\ \A a \in DOMAIN o : o[a] \div 256 = IF a \in {AM_BYTEADR_SP, AM_WORDADR_SP} THEN 158 ELSE 0
           /\ \A i \in 1..8 : Code(c, Conditions[i], AM_REL) = 31 + i
           /\ Code(c, "brset", AM_BITBRAMOD) = 0 /\ Code(c, "brclr", AM_BITBRAMOD) = 1
           /\ Code(c, "bset", AM_BITMOD) = 16 /\ Code(c, "bclr", AM_BITMOD) = 17
           /\ \A s \in {<<"neg", 0>>, <<"com", 3>>, <<"lsr", 4>>, <<"ror", 6>>, <<"asr", 7>>, <<"asl", 8>>, <<"rol", 9>>, <<"dec", 10>>, <<"inc", 12>>, <<"tst", 13>>, <<"clr", 15>>} :
                /\ Low(Code(c, s[1], AM_BYTEADR)) = s[2]
                /\ Tb(c)[T(s[1]) \o <<97>>].ops = (AM_IMP :> (64 + s[2])) /\ Tb(c)[T(s[1]) \o <<120>>].ops = (AM_IMP :> (80 + s[2]))

\* what the F8's instructions with an operand in the opcode leave room for
RoomF8 == \A p \in {<<"as", 16>>, <<"asd", 16>>, <<"ds", 16>>, <<"ns", 16>>, <<"xs", 16>>, <<"ins", 16>>, <<"outs", 16>>, <<"lisu", 8>>, <<"lisl", 8>>} :
            LET o == Code("f8", p[1], AM_IMP) IN
            o % p[2] = 0 /\ \A e \in Entries("f8") : e[1] # T(p[1]) => e[3] < o \/ e[3] >= o + p[2]

Facts(c) == /\ Distinct(c) /\ PrefixFree(c) /\ Aliased(c)
            /\ CASE c = "6502" -> Mos(c) /\ Undocumented
                 [] c = "65c02" -> Mos(c) /\ Cmos
                 [] c = "6803" -> Motorola(c)
                 [] c = "6303" -> Motorola(c) /\ Contains(c, "6803")
                 [] c = "6811" -> Motorola(c) /\ Hc11 /\ Contains(c, "6803")
                 [] c \in {"68705", "68908"} -> Hc05(c)
                 [] c = "f8" -> RoomF8
Init == \E c \in Chips : x = <<c, FALSE>>
Next == ~x[2] /\ x' = <<x[1], TRUE>>
Spec == Init /\ [][Next]_x
Theorem == [][Facts(x'[1])]_x
=============================================================================
