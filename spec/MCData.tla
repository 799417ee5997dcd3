------------------------------- MODULE MCData -------------------------------
(***************************************************************************)
(* C08: one data line of every kind, for values around the limits of each  *)
(* width.  The bytes put down, read in the processor's order, give back    *)
(* the value; a value that does not fit is refused.                        *)
(***************************************************************************)
EXTENDS MCBase

\* operation, bytes per element, order swapped
Forms == << <<" dc ", 1, FALSE>>, <<" dc.b ", 1, FALSE>>, <<" byte ", 1, FALSE>>, <<" dc.w ", 2, FALSE>>, <<" word ", 2, FALSE>>,
            <<" dc.s ", 2, TRUE>>, <<" dc.l ", 4, FALSE>>, <<" long ", 4, FALSE>> >>
Chips == << <<"6502", FALSE>>, <<"65c02", FALSE>>, <<"6803", TRUE>>, <<"hd6303", TRUE>>, <<"68705", TRUE>>, <<"68hc11", TRUE>>, <<"68908", TRUE>>, <<"f8", TRUE>> >>
Values == {-70000, -65536, -65535, -32769, -32768, -257, -256, -255, -129, -128, -1, 0, 1, 127, 128, 255, 256, 4660, 32767, 32768, 65535, 65536, 70000, 305419896}
\* a program is <<processor, form, value, value, strict, kind>>: kind 1 both written out, kind 2 the second behind a forward reference
Elem(n) == DecInt(n)
MCTest(id) ==
  LET f == T(Forms[id[2]][1])
      two == <<f \o Elem(id[3]) \o <<44>> \o Elem(id[4]) \o <<LF>>>>
      late == <<f \o Elem(id[3]) \o <<44>> \o T("v") \o <<LF>>, T("v equ ") \o Elem(id[4]) \o <<LF>>>>
  IN [Program(<<T(" processor ") \o L(Chips[id[1]][1]), L(" org 16")>> \o (IF id[6] = 1 THEN two ELSE late)) EXCEPT !.opt.strict = id[5]]
\* MaxLen 0: each limit with one other value, 1: with a few, 2: all pairs
Small1 == CASE MaxLen = 0 -> {4660} [] MaxLen = 1 -> {0, 255, -256, 4660} [] OTHER -> Values
Init == \E c \in 1..Len(Chips) : \E f \in 1..Len(Forms) : \E a \in Values : \E b \in Small1 : \E s \in BOOLEAN : \E k \in {1, 2} :
          w = State0(<<c, f, a, b, s, k>>)
Next == <<Steps(w)>>_w
Spec == Init /\ [][Next]_w

Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
\* the low bytes of a number, most significant byte last; TLC has 32 bits
Low(n, k) == [i \in 1..k |-> (CASE i = 1 -> n [] i = 2 -> n \div 256 [] i = 3 -> n \div 65536 [] i = 4 -> n \div 16777216) % 256]
Bytes(id, n) == LET k == Forms[id[2]][2]
                    big == Chips[id[1]][2] # Forms[id[2]][3]
                IN IF big THEN Rev(Low(n, k)) ELSE Low(n, k)
Fits(id, n) == CASE Forms[id[2]][2] = 1 -> n >= -255 /\ n <= 255
                 [] Forms[id[2]][2] = 2 -> ~id[5] \/ (n >= -65535 /\ n <= 65535)
                 [] OTHER -> TRUE
Check(v) == Ended(v) => LET id == v.tid IN
            IF Fits(id, id[3]) /\ Fits(id, id[4])
            THEN v.exit = 0 /\ Emitted(v.log, 1) = Bytes(id, id[3]) \o Bytes(id, id[4]) /\ v.stop = FALSE
            ELSE v.exit = E_NONABORT
Theorem == [][Check(w')]_w
=============================================================================
