-------------------------------- MODULE State -------------------------------
(***************************************************************************)
(* The assembler's state, error reporting and the symbol table.            *)
(*                                                                         *)
(* The state is one record `w'; operators take a state and return the next *)
(* one.  Once w.exit # -1 the run has ended and nothing changes any more.  *)
(*                                                                         *)
(* A program is a constant record Test(tid):                              *)
(*   files  function: file name (text) -> sequence of lines (texts with    *)
(*          their line terminator)                                         *)
(*   bins   function: file name -> sequence of bytes, for INCBIN           *)
(*   opt    command line options                                           *)
(***************************************************************************)
EXTENDS W64, TLC

CONSTANT Test(_)                        \* the program with a given identity

NoStr == <<0>>                          \* "no string": 0 is no character

--------------------------------------------------------------------------
(* addressing modes *)
AM_IMP == 0  AM_IMM8 == 1  AM_IMM16 == 2  AM_BYTEADR == 3  AM_BYTEADRX == 4
AM_BYTEADRY == 5  AM_WORDADR == 6  AM_WORDADRX == 7  AM_WORDADRY == 8
AM_REL == 9  AM_BYTEREL == 10  AM_INDBYTEX == 11  AM_INDBYTEY == 12
AM_INDWORD == 13  AM_INDWORDX == 14  AM_INDBYTE == 15  AM_0X == 16  AM_0Y == 17
AM_BITMOD == 18  AM_BITBRAMOD == 19  AM_BYTEADR_SP == 20  AM_WORDADR_SP == 21
AM_LONG == 24  AM_BSS == 25  AM_SWAP == 26

(* reasons for another pass *)
R_MNE == 0  R_OBSCURE == 1  R_DC == 2  R_DVP == 3  R_DVC == 4  R_DS == 5
R_ALIGN == 6  R_ALIGNR == 7  R_ALIGNN == 8  R_EQU == 9  R_EQUM == 10  R_IF == 11
R_REPEAT == 12  R_FWD == 13  R_PHASE == 14  R_BRANCH == 15  R_INCLUDE == 16  R_INCBIN == 17

(* error table: code -> <<before the argument, after it, stops the assembly at the end of the pass>> *)
E_CMD == 1  E_FILE == 2  E_NOTRES == 3  E_PASSES == 4  E_NONABORT == 5  E_SYNTAX == 6  E_EXPOVER == 7
E_DIV0 == 9  E_UNKMNE == 10  E_ADRMODE == 11  E_FORCED == 12  E_MACARGS == 13  E_EOF == 14
E_CHAR == 15  E_BRANCH == 16  E_ERR == 17  E_REVERSE == 18  E_EQUMIS == 19  E_LT100 == 20
E_LT10000 == 21  E_BIT == 22  E_ARGS == 23  E_LABEL == 24  E_MACREP == 25  E_UNDEF == 26
E_CPU == 27  E_REPNEG == 28  E_ONECPU == 30  E_1OR4 == 32  E_LT10 == 33  E_LT8 == 34  E_LTF == 35
E_VLT10000 == 36  E_COMBO == 37  E_DEEP == 38  E_SEGV == 39  E_ENDM == 40  E_COMEND == 41
E_SPURIOUS == 42  E_TYPE == 43

ErrDef ==
   (E_FILE :> <<T("Unable to open file."), NoStr, TRUE>>)
@@ (E_PASSES :> <<T("Too many passes ("), T(")."), TRUE>>)
@@ (E_SYNTAX :> <<T("Syntax Error '"), T("'."), TRUE>>)
@@ (E_EXPOVER :> <<T("Expression table overflow."), NoStr, TRUE>>)
@@ (E_DIV0 :> <<T("Division by zero."), NoStr, TRUE>>)
@@ (E_UNKMNE :> <<T("Unknown Mnemonic '"), T("'."), TRUE>>)
@@ (E_ADRMODE :> <<T("Illegal Addressing mode '"), T("'."), FALSE>>)
@@ (E_FORCED :> <<T("Illegal forced Addressing mode on '"), T("'."), TRUE>>)
@@ (E_MACARGS :> <<T("Not enough args passed to Macro."), NoStr, TRUE>>)
@@ (E_EOF :> <<T("Premature EOF."), NoStr, FALSE>>)
@@ (E_CHAR :> <<T("Illegal character '"), T("'."), TRUE>>)
@@ (E_BRANCH :> <<T("Branch out of range ("), T(" bytes)."), FALSE>>)
@@ (E_ERR :> <<T("ERR pseudo-op encountered."), NoStr, TRUE>>)
@@ (E_REVERSE :> <<T("Origin Reverse-indexed."), NoStr, FALSE>>)
@@ (E_EQUMIS :> <<T("EQU: Value mismatch."), NoStr, FALSE>>)
@@ (E_LT100 :> <<T("Value in '"), T("' must be <$100."), TRUE>>)
@@ (E_LT10000 :> <<T("Value in '"), T("' must be <$10000."), TRUE>>)
@@ (E_BIT :> <<T("Illegal bit specification."), NoStr, TRUE>>)
@@ (E_ARGS :> <<T("Not enough arguments."), NoStr, TRUE>>)
@@ (E_LABEL :> <<T("Label mismatch...") \o <<LF>> \o T(" --> "), <<>>, FALSE>>)
@@ (E_MACREP :> <<T("Macro \""), T("\" definition is repeated."), TRUE>>)
@@ (E_UNDEF :> <<T("Value Undefined."), NoStr, TRUE>>)
@@ (E_CPU :> <<T("Processor '"), T("' not supported."), TRUE>>)
@@ (E_REPNEG :> <<T("REPEAT parameter < 0 (ignored)."), NoStr, FALSE>>)
@@ (E_ONECPU :> <<T("Only one processor type may be selected."), NoStr, TRUE>>)
@@ (E_1OR4 :> <<T("Value in '"), T("' must be 1 or 4."), TRUE>>)
@@ (E_LT10 :> <<T("Value in '"), T("' must be <$10."), TRUE>>)
@@ (E_LT8 :> <<T("Value in '"), T("' must be <$8."), TRUE>>)
@@ (E_LTF :> <<T("Value in '"), T("' must be <$f."), TRUE>>)
@@ (E_VLT10000 :> <<T("Value in '"), T("' must be <$10000."), TRUE>>)
@@ (E_COMBO :> <<T("Illegal combination of operands '"), T("'"), TRUE>>)
@@ (E_DEEP :> <<T("Recursion too deep in "), <<>>, TRUE>>)
@@ (E_SEGV :> <<T("Internal error in "), <<>>, TRUE>>)
@@ (E_SPURIOUS :> <<T("Multi-line comment closed without open."), NoStr, TRUE>>)
@@ (E_TYPE :> <<T("Type mismatch"), NoStr, TRUE>>)

--------------------------------------------------------------------------
(* the initial state *)
InitialSeg == T("INITIAL CODE SEGMENT")
FreshSeg(bss) == [org |-> W0, unk |-> TRUE, bss |-> bss, ron |-> FALSE, rorg |-> W0, runk |-> TRUE]
EmptyMap == [x \in {} |-> 0]
ORGFILL == 255
BaseIf == [fid |-> 0, x |-> TRUE, a |-> TRUE, base |-> TRUE]

State0(tid) ==
 [ tid |-> tid, opt |-> Test(tid).opt, exit |-> -1,
   pass |-> 1, redo |-> 0, reval |-> 0, why |-> {}, ifnow |-> FALSE, ifprev |-> FALSE,
   oredo |-> -1, owhy |-> {}, oeval |-> 0,
   fr |-> <<>>, fid |-> 0, ifs |-> <<BaseIf>>, reps |-> <<>>,
   segs |-> (InitialSeg :> FreshSeg(FALSE)), cs |-> InitialSeg,
   syms |-> EmptyMap, scount |-> 0, macs |-> EmptyMap,
   loc |-> 0, lloc |-> 0, dol |-> 0, ldol |-> 0,
   gen |-> <<0, 0, 0, 0>>, glen |-> 0, plab |-> W0, punk |-> FALSE, pbss |-> FALSE,
   ext |-> NoStr, mnext |-> -1,
   log |-> <<>>, oorg |-> W0, fclear |-> TRUE, chk |-> W0, ofill |-> ORGFILL,
   lm |-> TRUE, msb |-> TRUE, proc |-> "none",
   errs |-> <<>>, msgs |-> <<>>, stop |-> FALSE, nmd |-> 0, nmc |-> 0,
   ml |-> FALSE, mlev |-> 0, ilev |-> 0, idirs |-> <<>>,
   spv |-> W0, spu |-> FALSE,
   evs |-> <<>>, sout |-> <<>>,
   ph |-> "boot", lab |-> <<>>, op |-> <<>>, arg |-> <<>>, com |-> <<>>, kind |-> <<"none", <<>>>> ]

Running(w) == w.exit = -1
Top(w) == w.fr[Len(w.fr)]
SetTop(w, f) == [w EXCEPT !.fr[Len(w.fr)] = f]
IfTop(w) == w.ifs[Len(w.ifs)]
Active(w) == IfTop(w).x /\ IfTop(w).a

Redo(w, reason) == [w EXCEPT !.redo = @ + 1, !.why = @ \union {reason}]
Ev(w, e)  == IF Running(w) THEN [w EXCEPT !.evs = Append(@, e)] ELSE w
Out(w, s) == IF Running(w) THEN [w EXCEPT !.sout = Append(@, s)] ELSE w

--------------------------------------------------------------------------
(* errors: file and line are those of the innermost file, not macro *)
RECURSIVE InnerFile(_, _)
InnerFile(fr, i) == IF i = 0 THEN 0 ELSE IF fr[i].mac THEN InnerFile(fr, i - 1) ELSE i

ErrPrefix(fmt, name, ln) ==
  CASE fmt = 0 -> name \o T(" (") \o DecNat(ln) \o T("): error: ")
    [] fmt = 1 -> T("line ") \o PadL(DecNat(ln), 7) \o <<SP>> \o PadR(name, 10) \o <<SP>>
    [] fmt = 2 -> name \o T(":") \o DecNat(ln) \o T(": error: ")
ErrText(code, arg) == LET d == ErrDef[code] IN
                      IF d[2] = NoStr THEN d[1] ELSE d[1] \o arg \o d[2]

Err(w, code, abort, arg) ==
  IF ~Running(w) THEN w ELSE
  LET k    == InnerFile(w.fr, Len(w.fr))
      pre  == IF k = 0 THEN <<>> ELSE ErrPrefix(w.opt.errfmt, w.fr[k].name, w.fr[k].ln)
      line == pre \o ErrText(code, arg)
      w1   == [w EXCEPT !.stop = @ \/ ErrDef[code][3], !.errs = Append(@, line), !.evs = Append(@, line)]
  IN IF abort \/ k = 0
     THEN [w1 EXCEPT !.exit = code, !.evs = Append(@, T("Aborting assembly"))]
     ELSE w1

--------------------------------------------------------------------------
(* symbols *)
NewSym(ordr) == [v |-> W0, u |-> TRUE, s |-> NoStr, ref |-> FALSE, mas |-> FALSE,
                set |-> FALSE, mac |-> FALSE, ord |-> ordr]

\* the internal name of a local label carries the scope's number
FullName(w, n) ==
  IF n # <<>> /\ n[1] = 46 THEN DecNat(w.loc) \o n
  ELSE IF n # <<>> /\ n[Len(n)] = 36 THEN DecNat(w.dol) \o <<36>> \o n
  ELSE n
DOT == <<46>>  DOT2 == <<46, 46>>  DOT3 == <<46, 46, 46>>
Special(n) == n = DOT \/ n = DOT2 \/ n = DOT3

Seg(w) == w.segs[w.cs]
PC(w)  == LET s == Seg(w) IN IF s.ron THEN s.rorg ELSE s.org
PCUnk(w) == LET s == Seg(w) IN IF s.ron THEN s.runk ELSE s.unk
SetSeg(w, s) == [w EXCEPT !.segs = [@ EXCEPT ![w.cs] = s]]

Exists(w, n) == Special(n) \/ FullName(w, n) \in DOMAIN w.syms
SymOf(w, n) ==
  IF n = DOT THEN [NewSym(0) EXCEPT !.v = PC(w), !.u = PCUnk(w)]
  ELSE IF n = DOT2 THEN [NewSym(0) EXCEPT !.v = w.spv, !.u = w.spu]
  ELSE IF n = DOT3 THEN [NewSym(0) EXCEPT !.v = w.chk, !.u = FALSE]
  ELSE w.syms[FullName(w, n)]
PutSym(w, n, r) == IF Special(n) THEN w
                   ELSE LET k == FullName(w, n) IN
                        [w EXCEPT !.syms = IF k \in DOMAIN @ THEN [@ EXCEPT ![k] = r] ELSE @ @@ (k :> r)]

SFlags(w, v, u, s, mac, mas, set) ==
  HexW(v, 4) \o <<SP>>
  \o (IF u THEN T("???? ") ELSE Blanks(5))
  \o (IF s THEN T("str ") ELSE Blanks(4))
  \o (IF mac THEN T("eqm ") ELSE Blanks(4))
  \o (IF mas \/ set THEN T("(") ELSE Blanks(1))
  \o (IF mas THEN T("R") ELSE Blanks(1))
  \o (IF set THEN T("S") ELSE Blanks(1))
  \o (IF mas \/ set THEN T(")") ELSE Blanks(1))

--------------------------------------------------------------------------
(* a label takes the current address *)
ProgramLabel(w0, lab) ==
  IF ~Running(w0) THEN w0 ELSE
  LET sg == Seg(w0)
      w  == [w0 EXCEPT !.plab = sg.org, !.punk = sg.unk, !.pbss = sg.bss]
      n  == IF lab # <<>> /\ lab[Len(lab)] = 58 THEN SubSeq(lab, 1, Len(lab) - 1) ELSE lab
      pc == PC(w)
      cu == PCUnk(w)
  IN IF lab = <<>> THEN w
     ELSE
     LET w1 == IF n # <<>> /\ n[1] # 46 /\ n[Len(n)] # 36
               THEN [w EXCEPT !.ldol = @ + 1, !.dol = w.ldol + 1] ELSE w
     IN IF ~Exists(w1, n)
        THEN LET w2 == [w1 EXCEPT !.scount = @ + 1] IN
             PutSym(w2, n, [NewSym(w2.scount) EXCEPT !.v = pc, !.u = cu])
        ELSE
        LET s0 == SymOf(w1, n)
            w2 == IF s0.ord = 0 THEN [w1 EXCEPT !.scount = @ + 1] ELSE w1
            s  == IF s0.ord = 0 THEN [s0 EXCEPT !.ord = w2.scount] ELSE s0
            w3 == IF s.u /\ s.ref THEN Redo(w2, R_FWD)
                  ELSE IF cu /\ s.ref THEN Redo(w2, R_FWD)
                  ELSE IF ~cu /\ ~s.u /\ pc # s.v
                  THEN Redo(IF w2.ifprev THEN w2
                            ELSE Err(w2, E_LABEL, FALSE,
                                   FullName(w2, n) \o <<SP>> \o SFlags(w2, s.v, FALSE, FALSE, FALSE, FALSE, FALSE)),
                            R_PHASE)
                  ELSE w2
        IN PutSym(w3, n, [s EXCEPT !.v = pc, !.u = cu])
=============================================================================
