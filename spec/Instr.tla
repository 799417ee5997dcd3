-------------------------------- MODULE Instr -------------------------------
(***************************************************************************)
(* Instruction encoding for the table driven processors: choice of the     *)
(* addressing mode, opcode, operand bytes, bit numbers, masks and branch   *)
(* displacements.                                                          *)
(***************************************************************************)
EXTENDS Emit

\* wider alternative of a mode (AM_IMP = none), and number of operand bytes
Wider == [m \in 0..21 |->
   CASE m = AM_IMM8 -> AM_IMM16 [] m = AM_BYTEADR -> AM_WORDADR [] m = AM_BYTEADRX -> AM_WORDADRX
     [] m = AM_BYTEADRY -> AM_WORDADRY [] m = AM_WORDADR -> AM_REL [] m = AM_INDWORDX -> AM_IMM16
     [] m = AM_0X -> AM_BYTEADRX [] m = AM_0Y -> AM_BYTEADRY [] OTHER -> AM_IMP]
OpSize == [m \in 0..21 |->
   CASE m \in {AM_IMP, AM_0X, AM_0Y} -> 0
     [] m \in {AM_IMM16, AM_WORDADR, AM_WORDADRX, AM_WORDADRY, AM_REL, AM_INDWORD, AM_INDWORDX, AM_WORDADR_SP} -> 2
     [] OTHER -> 1]
Ok(m, am) == am \in DOMAIN m.ops

RECURSIVE FirstMode(_, _)
FirstMode(m, am) == IF ~Ok(m, am) /\ Wider[am] # AM_IMP THEN FirstMode(m, Wider[am]) ELSE am

\* the mode an extension forces, given the operand's syntactic mode
ForcedMode(mnext, syn) ==
  CASE syn = AM_BYTEADR_SP -> IF mnext \in {AM_WORDADR, AM_WORDADR_SP} THEN AM_WORDADR_SP ELSE AM_BYTEADR_SP
    [] syn = AM_0Y -> IF mnext \in {AM_WORDADR, AM_WORDADRY} THEN AM_WORDADRY
                      ELSE IF mnext \in {AM_BYTEADR, AM_BYTEADRY} THEN AM_BYTEADRY ELSE AM_0Y
    [] syn = AM_0X -> IF mnext \in {AM_WORDADR, AM_WORDADRX} THEN AM_WORDADRX
                      ELSE IF mnext \in {AM_BYTEADR, AM_BYTEADRX} THEN AM_BYTEADRX ELSE AM_0X
    [] OTHER -> mnext

ByteModes == {AM_IMM8, AM_BYTEADR, AM_BYTEADRX, AM_BYTEADRY, AM_BYTEADR_SP}
WordModes == {AM_IMM16, AM_WORDADR, AM_WORDADRX, AM_WORDADRY, AM_INDWORD, AM_WORDADR_SP}
Ge256(v) == ~Lt(v, N(256))

RECURSIVE Widen(_, _, _, _, _, _)
\* widen the mode until the operand fits: [w, am]
Widen(w, m, am, x, opsize, breq) ==
  IF opsize <= OpSize[am] THEN [w |-> w, am |-> am]
  ELSE IF Wider[am] # AM_IMP /\ Ok(m, Wider[am]) THEN Widen(w, m, Wider[am], x, opsize, breq)
  ELSE IF x.u THEN [w |-> w, am |-> am]
  ELSE LET up == CASE am = AM_BYTEADRX -> AM_WORDADRX [] am = AM_BYTEADRY -> AM_WORDADRY
                   [] am = AM_BYTEADR_SP -> AM_WORDADR_SP [] OTHER -> AM_IMP
       IN IF Lt(N(255), x.v) /\ ~breq /\ up # AM_IMP /\ Ok(m, up) THEN [w |-> w, am |-> up]
          ELSE [w |-> Err(w, E_LT100, FALSE, m.name \o <<SP>> \o w.arg), am |-> am]

\* a branch displacement for an instruction of `len' bytes: [w, b]
Displacement(w, x, len) ==
  IF x.u THEN [w |-> w, b |-> -1]
  ELSE IF PCUnk(w) THEN [w |-> Redo(w, R_MNE), b |-> 0]
  ELSE LET d == Sub(Sub(x.v, PC(w)), N(len)) IN
       IF Lt(N(127), d) \/ Lt(d, N(-128))
       THEN [w |-> Redo(Err(w, E_BRANCH, FALSE, DecW(d)), R_BRANCH), b |-> 0]
       ELSE [w |-> w, b |-> ByteN(d, 0)]

RECURSIVE RedoUnknown(_, _, _, _)
RedoUnknown(w, l, i, r) == IF i > Len(l) THEN w
                           ELSE RedoUnknown(IF l[i].u THEN Redo(w, r) ELSE w, l, i + 1, r)

\* encode with the mode chosen; l = operand list
Encode(w, m, am, l) ==
  LET opc  == m.ops[am]
      head == IF opc > 255 THEN <<opc \div 256, opc % 256>> ELSE <<opc>>
      x    == l[1]
      bit(v) == \* the bit number goes into the opcode
        IF x.u THEN [w |-> v, h |-> head]
        ELSE IF Lt(N(7), x.v) THEN [w |-> Err(v, E_BIT, FALSE, <<>>), h |-> head]
        ELSE [w |-> v, h |-> [head EXCEPT ![1] = (@ + 2 * ByteN(x.v, 0)) % 256]]
      adr(v, pre) == \* address operand of a bit instruction
        IF ~l[2].u /\ Ge256(l[2].v) THEN Err(v, E_LT100, FALSE, pre \o m.name \o <<SP>> \o DecW(l[2].v)) ELSE v
      \* [w, b = bytes so far, k = next operand]
      A == CASE am = AM_BITMOD -> LET r == bit(adr(w, T("unknown "))) IN [w |-> r.w, b |-> Append(r.h, ByteN(l[2].v, 0)), k |-> 2]
             [] am = AM_BITBRAMOD -> LET r == bit(w) IN [w |-> adr(r.w, <<>>), b |-> Append(r.h, ByteN(l[2].v, 0)), k |-> 3]
             [] am = AM_REL -> [w |-> w, b |-> head, k |-> 1]
             [] OTHER -> [w |-> w, k |-> 2,
                          b |-> CASE OpSize[am] = 0 -> head
                                  [] OpSize[am] = 1 -> Append(head, ByteN(x.v, 0))
                                  [] OpSize[am] = 2 -> head \o EndianBytes(w.msb, x.v, 2)]
      B == IF "mask" \notin m.flags THEN A
           ELSE IF A.k > Len(l) THEN [A EXCEPT !.w = Err(@, E_ARGS, TRUE, <<>>)]
           ELSE LET y == l[A.k] IN
                [w |-> IF ~y.u /\ Ge256(y.v)
                       THEN Err(A.w, E_LT100, FALSE, T("unknown && > 256 ") \o m.name \o <<SP>> \o DecW(y.v)) ELSE A.w,
                 b |-> Append(A.b, ByteN(y.v, 0)), k |-> A.k + 1]
      C == IF ~("rel" \in m.flags \/ am = AM_REL \/ am = AM_BYTEREL) THEN B
           ELSE IF B.k > Len(l) THEN [B EXCEPT !.w = Err(@, E_ARGS, TRUE, <<>>)]
           ELSE LET d == Displacement(B.w, l[B.k], Len(B.b) + 1) IN
                [w |-> d.w, b |-> Append(B.b, d.b), k |-> B.k + 1]
  IN EmitBytes(C.w, C.b)

ExecMne(w0, m) ==
  LET r    == Eval(ProgramLabel(w0, w0.lab), w0.arg, TRUE)
      w    == RedoUnknown(r.w, r.l, 1, R_MNE)
      l    == r.l
      x    == l[1]
      syn  == IF "imod" \in m.flags /\ Len(l) > 1
              THEN IF "rel" \in m.flags THEN AM_BITBRAMOD ELSE AM_BITMOD
              ELSE x.am
      opsize == IF x.u \/ Ge256(x.v) THEN 2 ELSE IF x.v = W0 THEN 0 ELSE 1
      a1   == FirstMode(m, syn)
      opc1 == IF Ok(m, a1) THEN m.ops[a1] ELSE 0
      a2   == IF opc1 = 66 /\ w.proc = "65c02" /\ a1 = AM_INDBYTEX THEN AM_INDWORDX
              ELSE IF opc1 = 66 /\ w.proc = "65c02" /\ a1 = AM_INDBYTE THEN AM_INDWORD ELSE a1
      full == m.name \o <<SP>> \o w.arg
      forced == w.mnext >= 0
      a3   == IF forced THEN ForcedMode(w.mnext, syn) ELSE a2
      breq == w.mnext \in ByteModes
      w1   == IF breq /\ opsize > 1 THEN Err(w, E_LT100, FALSE, full \o T(", user requested byte mode")) ELSE w
      w2   == IF a3 \in WordModes /\ w.opt.strict /\ (Lt(N(65535), x.v) \/ Lt(x.v, N(-65535)))
              THEN Err(w1, E_LT10000, FALSE, full)
              ELSE IF a3 \in ByteModes /\ Lt(x.v, N(-255))
              THEN Err(w1, E_LT100, FALSE, T("negative ") \o full)
              ELSE w1
      f    == Widen(w2, m, a3, x, opsize, breq)
  IN IF ~Running(w) THEN w
     ELSE IF ~Ok(m, a2) THEN Redo(Err(w, E_ADRMODE, FALSE, full), R_MNE)
     ELSE IF forced /\ (syn \in {AM_INDBYTEX, AM_INDBYTEY} \/ ~Ok(m, a3))
     THEN Redo(Err(w, E_FORCED, FALSE, m.name), R_MNE)
     ELSE Encode(f.w, m, f.am, l)
=============================================================================
