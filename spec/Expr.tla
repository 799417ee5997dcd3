-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* The expression evaluator: one left to right scan with an operator stack *)
(* and an argument stack, run over the expression's characters.            *)
(*                                                                         *)
(* Evaluator state e:                                                      *)
(*   w        assembler state (symbols, errors)                            *)
(*   a        argument stack, entries [v, u, s] = value, unknown, string   *)
(*   o        operator stack, entries <<name, priority>>; 0 = bracket      *)
(*   lw       the last item was an operator (an operand is expected)       *)
(*   am       addressing mode of the current list element                  *)
(*   el       finished list elements [v, u, s, am]                         *)
(*   wm       addressing-mode syntax is recognised                         *)
(*   ix       inside [X+n], [Y+n], [SP+n]                                  *)
(*   id       such a bracket is open                                       *)
(*   op       the text is an instruction's operand                         *)
(*   pn       open parentheses of an addressing mode                       *)
(*   mf       found malformed; reported at its end                         *)
(*   pl       the whole expression text, for messages                      *)
(*   ab, ob   arguments and operators held by enclosing evaluations        *)
(*   dp       nesting of EQM expansions                                    *)
(***************************************************************************)
EXTENDS State

MAXOPS == 32
MAXARGS == 64
MAXNEST == 1000

Pri == [ mul |-> 20, div |-> 20, mod |-> 20, add |-> 19, sub |-> 19, shr |-> 18, shl |-> 18,
         gt |-> 17, ge |-> 17, lt |-> 17, le |-> 17, eq |-> 16, ne |-> 16, and |-> 15, xor |-> 14,
         or |-> 13, land |-> 12, lor |-> 11, cond |-> 10,
         inv |-> 128, neg |-> 128, not |-> 128, lsb |-> 128, msb |-> 128, brk |-> 0 ]
Unary == {"inv", "neg", "not", "lsb", "msb"}

Arg(v, u) == [v |-> v, u |-> u, s |-> NoStr]

\* the value of a text: its last eight characters as a big endian number
TextVal(s) == LET n == Len(s) IN
              Canon([k \in 1..8 |-> IF n - k + 1 >= 1 THEN s[n - k + 1] ELSE 0])

UnOp(op, x) ==
  CASE op = "inv" -> Arg(NotW(x.v), x.u)
    [] op = "neg" -> Arg(Neg(x.v), x.u)
    [] op = "not" -> Arg(Bool(x.v = W0), x.u)
    [] op = "lsb" -> Arg(N(ByteN(x.v, 0)), x.u)
    [] op = "msb" -> Arg(N(ByteN(x.v, 1)), x.u)

BinOp(op, x, y) ==
  LET u == x.u \/ y.u IN
  CASE op = "mul" -> Arg(Mul(x.v, y.v), u)
    [] op = "div" -> IF u THEN Arg(W0, u) ELSE Arg(Div(x.v, y.v), FALSE)     \* divisor 0: see EvalTop
    [] op = "mod" -> IF u THEN Arg(W0, u) ELSE IF y.v = W0 THEN Arg(x.v, FALSE) ELSE Arg(Mod(x.v, y.v), FALSE)
    [] op = "add" -> Arg(Add(x.v, y.v), u)
    [] op = "sub" -> Arg(Sub(x.v, y.v), u)
    [] op = "shr" -> IF u THEN Arg(W0, u) ELSE Arg(Shr(x.v, y.v), FALSE)
    [] op = "shl" -> IF u THEN Arg(W0, u) ELSE Arg(Shl(x.v, y.v), FALSE)
    [] op = "gt"  -> Arg(Bool(Lt(y.v, x.v)), u)
    [] op = "ge"  -> Arg(Bool(~Lt(x.v, y.v)), u)
    [] op = "lt"  -> Arg(Bool(Lt(x.v, y.v)), u)
    [] op = "le"  -> Arg(Bool(~Lt(y.v, x.v)), u)
    [] op = "eq"  -> Arg(Bool(x.v = y.v), u)
    [] op = "ne"  -> Arg(Bool(x.v # y.v), u)
    [] op = "and" -> Arg(AndW(x.v, y.v), u)
    [] op = "xor" -> Arg(XorW(x.v, y.v), u)
    [] op = "or"  -> Arg(OrW(x.v, y.v), u)
    [] op = "land" -> IF (~x.u /\ x.v = W0) \/ (~y.u /\ y.v = W0) THEN Arg(W0, FALSE) ELSE Arg(W1, u)
    [] op = "lor"  -> IF (~x.u /\ x.v # W0) \/ (~y.u /\ y.v # W0) THEN Arg(W1, FALSE) ELSE Arg(W0, u)
    [] op = "cond" -> IF x.u THEN Arg(W0, TRUE)
                      ELSE IF x.v # W0 THEN Arg(y.v, y.u) ELSE Arg(W0, FALSE)

EErr(e, code, abort, arg) == [e EXCEPT !.w = Err(@, code, abort, arg)]

RECURSIVE EvalTop(_), StackArg(_, _)
\* push an operand; pending unary operators apply to it at once
StackArg(e, x) ==
  IF ~Running(e.w) THEN e ELSE
  LET e1 == [e EXCEPT !.a = Append(@, x), !.lw = FALSE]
      RECURSIVE Unaries(_)
      Unaries(f) == IF Running(f.w) /\ f.o # <<>> /\ f.o[Len(f.o)][2] = 128 THEN Unaries(EvalTop(f)) ELSE f
  IN IF e.ab + Len(e1.a) = MAXARGS
     THEN EErr(e1, E_EXPOVER, TRUE, <<>>)
     ELSE Unaries(e1)

\* apply the operator on top of the stack
EvalTop(e) ==
  IF ~Running(e.w) THEN e ELSE
  LET k  == Len(e.o)
      op == e.o[k][1]
      pr == e.o[k][2]
      e1 == [e EXCEPT !.o = SubSeq(@, 1, k - 1)]
      n  == Len(e.a)
  IN IF op = "brk" THEN EErr(e1, E_SEGV, TRUE, T("operator function table"))      \* not closed
     ELSE IF pr = 128
     THEN IF n < 1 THEN [EErr(e1, E_SYNTAX, FALSE, <<>>) EXCEPT !.a = <<>>]
          ELSE StackArg([e1 EXCEPT !.a = SubSeq(@, 1, n - 1)], UnOp(op, e.a[n]))
     ELSE IF n < 2 THEN [EErr(e1, E_SYNTAX, FALSE, <<>>) EXCEPT !.a = <<>>]
     ELSE LET x == e.a[n-1]
              y == e.a[n]
              e2 == [e1 EXCEPT !.a = SubSeq(@, 1, n - 2)]
          IN IF op = "div" /\ ~x.u /\ ~y.u /\ y.v = W0
             THEN EErr(e2, E_DIV0, TRUE, <<>>)
             ELSE StackArg(e2, BinOp(op, x, y))

RECURSIVE Reduce(_, _)
\* apply operators that bind at least as tightly as pri
Reduce(e, pri) == IF Running(e.w) /\ e.o # <<>> /\ e.o[Len(e.o)][2] # 0 /\ pri <= e.o[Len(e.o)][2]
                  THEN Reduce(EvalTop(e), pri) ELSE e
RECURSIVE Drain(_)
Drain(e) == IF Running(e.w) /\ e.o # <<>> THEN Drain(EvalTop(e)) ELSE e

PushOp(e, op) ==
  [e EXCEPT !.o = Append(@, <<op, Pri[op]>>), !.lw = TRUE]

DoOp(e, op) ==
  IF e.o = <<>> \/ Pri[op] = 128
  THEN IF e.ob + Len(e.o) >= MAXOPS THEN EErr(e, E_DEEP, TRUE, T("doop()"))
       ELSE PushOp(e, op)
  ELSE LET e1 == Reduce([e EXCEPT !.lw = TRUE], Pri[op]) IN
       IF ~Running(e1.w) THEN e1
       ELSE IF e1.ob + Len(e1.o) >= MAXOPS THEN EErr(e1, E_EXPOVER, TRUE, <<>>)
       ELSE PushOp(e1, op)

\* digit strings
DigVal(c) == IF IsDigit(c) THEN c - 48 ELSE (c % 32) + 9
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
RECURSIVE Number(_, _, _, _, _)
Number(s, i, j, base, acc) == IF i >= j THEN acc
                              ELSE Number(s, i + 1, j, base, Inc(Mul(acc, N(base)), DigVal(s[i])))
\* the number at i..j-1, which needs a digit
Digits(e, s, i, j, base) == StackArg(IF i = j THEN EErr(e, E_SYNTAX, FALSE, From(s, i)) ELSE e, Arg(Number(s, i, j, base, W0), FALSE))
RECURSIVE SkipHex(_, _)
SkipHex(s, i) == IF IsHex(At(s, i)) THEN SkipHex(s, i + 1) ELSE i
DecDigits == 48..57
OctDigits == 48..55
SymChars == (48..57) \union (65..90) \union (97..122) \union {95, 46, 64, 123, 125}

ElemOf(e, am) == LET x == e.a[Len(e.a)] IN [v |-> x.v, u |-> x.u, s |-> x.s, am |-> am]
\* close a list element; an empty one is an error and counts as 0
CloseElem(e, am) ==
  LET e1 == IF e.a = <<>> THEN [StackArg(EErr(e, E_SYNTAX, FALSE, e.pl), Arg(W0, FALSE)) EXCEPT !.lw = TRUE] ELSE e
      e2 == [e1 EXCEPT !.el = Append(@, ElemOf(e1, am)), !.a = SubSeq(@, 1, Len(@) - 1), !.am = AM_IMP]
  IN IF ~Running(e1.w) THEN e1 ELSE e2

RECURSIVE Scan(_, _, _), EvalAt(_, _, _, _, _, _)

\* push the value of the symbol named n
PushSymbol(e, n) ==
  IF e.dp + 1 > MAXNEST THEN EErr(e, E_DEEP, TRUE, T("pushsymbol()")) ELSE
  IF Exists(e.w, n)
  THEN LET s == SymOf(e.w, n)
           e1 == [e EXCEPT !.w.reval = IF s.u THEN @ + 1 ELSE @]
       IN IF s.mac
          THEN LET r == EvalAt(e1.w, s.s, FALSE, e.ab + Len(e.a), e.ob + Len(e.o), e.dp + 1)
                   x == r.l[1]
                   e2 == [e1 EXCEPT !.w = r.w]
               IN IF ~Running(r.w) THEN e2
                  ELSE IF x.s # NoStr
                       THEN LET t == CutAt(x.s, {34}) IN StackArg(e2, [v |-> TextVal(t), u |-> FALSE, s |-> t])
                       ELSE StackArg(e2, Arg(x.v, x.u))
          ELSE LET e2 == IF s.s # NoStr
                         THEN LET t == CutAt(s.s, {34}) IN StackArg(e1, [v |-> TextVal(t), u |-> FALSE, s |-> t])
                         ELSE StackArg(e1, Arg(s.v, s.u))
               IN IF Special(n) THEN e2
                  ELSE [e2 EXCEPT !.w = PutSym(@, n, [s EXCEPT !.ref = TRUE, !.mas = TRUE])]
  ELSE LET e1 == StackArg(e, Arg(W0, TRUE)) IN
       [e1 EXCEPT !.w = PutSym([@ EXCEPT !.reval = @ + 1], n,
                               [NewSym(0) EXCEPT !.ref = TRUE, !.mas = TRUE])]

\* a symbol starting at position i; returns <<e, next position>>
ReadSymbol(e, s, i) ==
  LET j == SkipIn(s, i, SymChars)
      k == IF At(s, j) = 36 THEN j + 1 ELSE j
      c == s[i]
      cs == IF c >= 128 THEN c - 256 ELSE c
  IN IF j = i
     THEN <<[EErr(e, E_CHAR, FALSE, From(s, i)) EXCEPT
               !.w = Ev(@, T("char = '") \o <<c>> \o T("' code ") \o DecInt(cs))], i + 1>>
     ELSE <<PushSymbol(e, SubSeq(s, i, k - 1)), k>>

\* evaluate s from position i on
Scan(e, s, i) ==
  IF i > Len(s) \/ ~Running(e.w) THEN e ELSE
  LET c  == s[i]
      c1 == At(s, i + 1)
      c2 == At(s, i + 2)
      Op(op, n) == Scan(DoOp(e, op), s, i + n)
      Mot == e.w.proc \in {"68705", "6811", "68908"}
      \* an operand may not directly follow another
      Put(f) == [f EXCEPT !.mf = @ \/ (~e.lw /\ Len(f.a) > Len(e.a))]
      Open ==     \* '[' or '('
        IF Mot /\ e.op /\ ((Or20(c1) \in {120, 121} /\ c2 = 43) \/ (Or20(c1) = 115 /\ Or20(c2) = 112 /\ At(s, i + 3) = 43))
        THEN LET m == CASE Or20(c1) = 120 -> AM_BYTEADRX [] Or20(c1) = 121 -> AM_BYTEADRY [] Or20(c1) = 115 -> AM_BYTEADR_SP
             IN Scan([e EXCEPT !.ix = TRUE, !.id = TRUE, !.am = m, !.mf = @ \/ ~e.lw], s, i + (IF m = AM_BYTEADR_SP THEN 4 ELSE 3))
        ELSE IF e.ob + Len(e.o) = MAXOPS THEN EErr(e, E_EXPOVER, TRUE, <<>>)
        ELSE Scan([e EXCEPT !.ix = FALSE, !.mf = @ \/ ~e.lw, !.o = Append(@, <<"brk", 0>>)], s, i + 1)
      Close ==    \* ']' or ')'
        LET e1 == Reduce(e, 1)
            e2 == IF e1.o # <<>> THEN [e1 EXCEPT !.o = SubSeq(@, 1, Len(@) - 1)]
                  ELSE IF e1.id THEN [e1 EXCEPT !.id = FALSE]
                  ELSE EErr(e1, E_SYNTAX, FALSE, e.pl)
            e3 == [e2 EXCEPT !.ix = FALSE, !.lw = FALSE]
            n  == Len(e3.a)
            x  == e3.a[n]
        IN IF ~Running(e1.w) THEN e1
           ELSE IF ~e.ix /\ e2.a = <<>>
           THEN Scan(EErr([e2 EXCEPT !.lw = FALSE, !.w = Out(@, T("']' error, no arg on stack"))], E_SYNTAX, FALSE, e.pl), s, i + 1)
           ELSE IF c1 = 100                  \* ]d converts to a decimal text
           THEN Scan(IF n > 0 /\ ~x.u THEN [e3 EXCEPT !.a[n].s = DecW(x.v)] ELSE e3, s, i + 2)
           ELSE Scan(e3, s, i + 1)
      Comma ==
        LET d  == [Drain(e) EXCEPT !.lw = TRUE]
            x1 == IF e.op THEN Or20(c1) ELSE 0
            ind == d.am = AM_INDWORD
        IN IF ~Running(d.w) THEN d
           ELSE IF ind /\ x1 = 120 /\ ~IsAlnum(c2) THEN Scan([d EXCEPT !.am = AM_INDBYTEX], s, i + 2)
           ELSE IF ~ind /\ x1 # 120 /\ x1 # 121 /\ d.w.proc = "65c02"
           THEN Scan(CloseElem(d, AM_BYTEREL), s, i + 1)
           ELSE IF ind /\ x1 = 121 /\ c2 = 41 /\ d.wm
           THEN Scan([EErr(d, E_ADRMODE, FALSE, d.pl) EXCEPT !.w = Redo(@, R_MNE), !.am = AM_0Y], s, i + 2)
           ELSE IF x1 = 120 /\ ~IsAlnum(c2) THEN Scan([d EXCEPT !.am = AM_0X], s, i + 2)
           ELSE IF x1 = 121 /\ ~IsAlnum(c2) THEN Scan([d EXCEPT !.am = AM_0Y], s, i + 2)
           ELSE IF x1 = 115 /\ Or20(c2) = 112 /\ ~IsAlnum(At(s, i + 3))
           THEN Scan([d EXCEPT !.am = AM_BYTEADR_SP], s, i + 3)
           ELSE LET d1 == CloseElem(d, d.am)
                    d2 == IF d1.a # <<>> \/ d.mf THEN EErr(d1, E_SYNTAX, FALSE, d.pl) ELSE d1
                IN Scan([d2 EXCEPT !.mf = FALSE], s, i + 1)
      Paren ==    \* ')' with addressing-mode syntax
        LET y  == e.am = AM_INDWORD /\ c1 = 44 /\ Or20(c2) = 121
            e0 == IF e.pn > 0 THEN [e EXCEPT !.pn = @ - 1] ELSE [e EXCEPT !.mf = TRUE]
            e1 == IF y THEN [e0 EXCEPT !.am = AM_INDBYTEY] ELSE e0
            p  == IF y THEN i + 2 ELSE i
            e2 == IF e1.am = AM_INDWORD /\ At(s, p + 1) = 44 /\ Or20(At(s, p + 2)) = 120
                  THEN [EErr(e1, E_ADRMODE, FALSE, e.pl) EXCEPT !.w = Redo(@, R_MNE)] ELSE e1
            e3 == IF e2.am = AM_INDWORD /\ At(s, p + 1) = 0 /\ e.w.proc = "65c02"
                  THEN [e2 EXCEPT !.am = AM_INDBYTE] ELSE e2
        IN Scan(e3, s, p + 1)
  IN
  CASE c = 32 \/ c = 10 -> Scan(e, s, i + 1)
    [] c = 126 -> IF e.lw THEN Op("inv", 1) ELSE Scan(EErr(e, E_SYNTAX, FALSE, e.pl), s, i + 1)   \* ~
    [] c = 42 -> IF e.lw THEN Scan(PushSymbol(e, DOT), s, i + 1) ELSE Op("mul", 1)                \* *
    [] c = 47 -> Op("div", 1)
    [] c = 37 -> IF e.lw THEN LET j == SkipIn(s, i + 1, {48, 49}) IN                              \* %
                              Scan(Digits(e, s, i + 1, j, 2), s, j)
                 ELSE Op("mod", 1)
    [] c = 63 -> Op("cond", 1)
    [] c = 43 -> Op("add", 1)
    [] c = 45 -> IF e.lw THEN Op("neg", 1) ELSE Op("sub", 1)
    [] c = 62 -> IF e.lw THEN Op("msb", 1)
                 ELSE IF c1 = 62 THEN Op("shr", 2) ELSE IF c1 = 61 THEN Op("ge", 2) ELSE Op("gt", 1)
    [] c = 60 -> IF e.lw THEN Op("lsb", 1)
                 ELSE IF c1 = 60 THEN Op("shl", 2) ELSE IF c1 = 61 THEN Op("le", 2) ELSE Op("lt", 1)
    [] c = 61 -> Op("eq", IF c1 = 61 THEN 2 ELSE 1)
    [] c = 33 -> IF e.lw THEN Op("not", 1) ELSE IF c1 = 61 THEN Op("ne", 2) ELSE Scan(EErr(e, E_SYNTAX, FALSE, e.pl), s, i + 1)
    [] c = 38 -> IF c1 = 38 THEN Op("land", 2) ELSE Op("and", 1)
    [] c = 94 -> Op("xor", 1)
    [] c = 124 -> IF c1 = 124 THEN Op("lor", 2) ELSE Op("or", 1)
    [] c = 40 -> IF e.wm THEN Scan([e EXCEPT !.am = AM_INDWORD, !.pn = @ + 1], s, i + 1) ELSE Open
    [] c = 91 -> Open
    [] c = 41 -> IF e.wm THEN Paren ELSE Close
    [] c = 93 -> Close
    [] c = 35 -> Scan([e EXCEPT !.am = AM_IMM8, !.wm = FALSE, !.mf = @ \/ ~e.lw \/ e.o # <<>>], s, i + 1)
    [] c = 44 -> Comma
    [] c = 36 -> LET j == SkipHex(s, i + 1) IN
                 Scan(Put(Digits(e, s, i + 1, j, 16)), s, j)
    [] c = 39 -> IF c1 = 0 THEN Scan(Put(StackArg(e, Arg(N(32), FALSE))), s, i + 1)
                 ELSE Scan(Put(StackArg(e, Arg(N(IF c1 >= 128 THEN c1 - 256 ELSE c1), FALSE))), s, i + 2)
    [] c = 34 -> LET j == FindIn(s, i + 1, {34})
                     t == SubSeq(s, i + 1, j - 1)
                 IN Scan(Put(StackArg(e, [v |-> TextVal(t), u |-> FALSE, s |-> t])), s, j + 1)
    [] OTHER -> LET d == SkipIn(s, i, DecDigits) IN
                IF ~IsDigit(c) \/ At(s, d) = 36
                THEN LET r == ReadSymbol(e, s, i) IN Scan(Put(r[1]), s, r[2])
                ELSE IF c = 48 /\ c1 = 120
                THEN LET j == SkipHex(s, i + 2) IN
                     Scan(Put(Digits(e, s, i + 2, j, 16)), s, j)
                ELSE IF c = 48
                THEN LET j == SkipIn(s, i, OctDigits) IN
                     Scan(Put(StackArg(e, Arg(Number(s, i, j, 8, W0), FALSE))), s, j)
                ELSE Scan(Put(StackArg(e, Arg(Number(s, i, d, 10, W0), FALSE))), s, d)

EvalAt(w, s, wm, ab, ob, dp) ==
  LET e0 == [w |-> w, a |-> <<>>, o |-> <<>>, lw |-> TRUE, am |-> AM_IMP, el |-> <<>>, wm |-> wm,
             ix |-> FALSE, id |-> FALSE, mf |-> FALSE, pn |-> 0, op |-> wm, pl |-> s, ab |-> ab, ob |-> ob, dp |-> dp]
      e  == Drain(Scan(e0, s, 1))
      got == e.a # <<>>
      last == IF got THEN ElemOf(e, e.am) ELSE [v |-> W0, u |-> FALSE, s |-> NoStr, am |-> e.am]
      l0 == Append(e.el, last)
      l  == IF got /\ l0[1].am = AM_IMP THEN [l0 EXCEPT ![1].am = AM_BYTEADR] ELSE l0
        bad == Len(e.a) > 1 \/ e.mf \/ e.pn > 0 \/ e.id \/ (~got /\ (e.el # <<>> \/ e.am \in {AM_IMM8, AM_INDWORD, AM_INDBYTE, AM_INDBYTEX, AM_INDBYTEY}))
  IN [w |-> IF bad THEN Err(e.w, E_SYNTAX, FALSE, s) ELSE e.w, l |-> l]

\* Eval(w, s, wm): [w |-> state, l |-> non-empty sequence of list elements]
Eval(w, s, wm) == EvalAt(w, s, wm, 0, 0, 0)
=============================================================================
