-------------------------------- MODULE Lex ---------------------------------
(***************************************************************************)
(* From a source line to its three fields: comments and macro arguments    *)
(* (Clean), then label, operation and operand (Parse).                     *)
(***************************************************************************)
EXTENDS Expr

NL == {CR, LF}

\* C's atoi on the text after position i
Atoi(s, i0) ==
  LET i == SkipIn(s, i0, {SP, TAB})
      neg == At(s, i) = 45
      k == IF At(s, i) \in {43, 45} THEN i + 1 ELSE i
      j == SkipIn(s, k, DecDigits)
      RECURSIVE F(_, _)
      F(p, acc) == IF p >= j \/ acc > 1000000 THEN acc ELSE F(p + 1, acc * 10 + s[p] - 48)
      n == F(k, 0)
  IN IF neg THEN -n ELSE n

QuoteBlanks(s) == Subst(s, SP, QSP)
CleanStop == {59, CR, LF, TAB, 39, 34, 123}

MAXLINE == 1024

RECURSIVE CleanLoop(_, _, _, _, _)
\* done: text already processed, rest: what follows; dis: no macro arguments; n: arguments put in so far,
\* limited because an argument may be a reference to itself
CleanLoop(w, done, rest, dis, n) ==
  LET i == FindIn(rest, 1, CleanStop) IN
  IF i > Len(rest) THEN [w |-> w, t |-> done \o rest, c |-> <<>>] ELSE
  LET c  == rest[i]
      d  == done \o SubSeq(rest, 1, i - 1)
      r  == From(rest, i + 1)
  IN
  CASE c = 59 -> [w |-> w, t |-> d, c |-> r]
    [] c \in NL -> [w |-> w, t |-> d, c |-> <<>>]
    [] c = TAB -> CleanLoop(w, Append(d, SP), r, dis, n)
    [] c = 39 -> IF r = <<>> \/ r[1] = LF
                 THEN [w |-> w, t |-> d \o <<39, QSP>>, c |-> <<>>]
                 ELSE LET q == IF r[1] = TAB \/ r[1] = SP THEN QSP ELSE r[1] IN
                      CleanLoop(w, d \o <<39, q>>, From(r, 2), dis, n)
    [] c = 34 -> LET j == FindIn(r, 1, {34}) IN
                 IF j > Len(r)
                 THEN LET t == d \o <<34>> \o QuoteBlanks(r) IN
                      [w |-> Err(w, E_SYNTAX, FALSE, t), t |-> t, c |-> <<>>]
                 ELSE CleanLoop(w, d \o <<34>> \o QuoteBlanks(SubSeq(r, 1, j - 1)) \o <<34>>, From(r, j + 1), dis, n)
    [] c = 123 -> IF dis THEN CleanLoop(w, Append(d, c), r, dis, n)
                  ELSE LET j == FindIn(r, 1, {125})
                           k == Atoi(r, 1) + 1
                           args == Top(w).args
                       IN IF j > Len(r)
                          THEN [w |-> Err(w, E_SYNTAX, FALSE, T("end brace required")), t |-> d, c |-> <<>>]
                          ELSE IF k >= 1 /\ k <= Len(args)
                          THEN IF n = MAXLINE THEN [w |-> Err(w, E_DEEP, TRUE, T("macro arguments")), t |-> d, c |-> <<>>]
                               ELSE IF Len(d) + Len(args[k]) + Len(r) - j + 1 > MAXLINE
                               THEN [w |-> Err(w, E_SEGV, TRUE, T("macro arguments, line too long")), t |-> d, c |-> <<>>]
                               ELSE CleanLoop(w, d, args[k] \o From(r, j + 1), dis, n + 1)
                          ELSE [w |-> Err(w, E_MACARGS, FALSE, <<>>), t |-> d, c |-> <<>>]

RECURSIVE CommentAt(_, _, _)
\* the first comment delimiter outside quotes: [at = position of "/*" or 0, sp = a "*/" comes before it]
CommentAt(b, i, sp) ==
  LET k == FindIn(b, i, {34, 39, 42, 47, 59})
      q == FindIn(b, k + 1, {34})
  IN IF k > Len(b) \/ b[k] = 59 THEN [at |-> 0, sp |-> sp]
     ELSE CASE b[k] = 34 -> CommentAt(b, (IF q > Len(b) THEN k ELSE q) + 1, sp)
            [] b[k] = 39 -> CommentAt(b, k + 2, sp)
            [] b[k] = 47 /\ At(b, k + 1) = 42 -> [at |-> k, sp |-> sp]
            [] OTHER -> CommentAt(b, k + 1, sp \/ (b[k] = 42 /\ At(b, k + 1) = 47))

RECURSIVE Clean(_, _, _)
\* strip comments, normalise blanks, insert macro arguments: [w, t = text, c = comment]
Clean(w, buf, dis) ==
  LET Loop(v, b) == LET r == CleanLoop(v, <<>>, b, dis, 0) IN [r EXCEPT !.t = RTrim(@, {SP})]
  IN IF w.ml
     THEN LET me == Find2(buf, 42, 47, 1) IN
          IF me # 0
          THEN Clean([w EXCEPT !.ml = FALSE],
                     CutAt(From(buf, me + 2), NL) \o T(";*/") \o SubSeq(buf, 1, me - 1), dis)
          ELSE Loop(w, <<59>> \o buf)
     ELSE LET f  == CommentAt(buf, 1, FALSE)
              ms == f.at
              me == Find2(buf, 42, 47, ms + 2)
              w1 == IF f.sp THEN Err(w, E_SPURIOUS, FALSE, <<>>) ELSE w
          IN IF ms = 0 THEN Loop(w1, buf)
             ELSE IF me # 0
             THEN Clean(w1, SubSeq(buf, 1, ms - 1) \o CutAt(From(buf, me + 2), NL)
                            \o T(";/") \o SubSeq(buf, ms + 1, me), dis)
             ELSE Loop([w1 EXCEPT !.ml = TRUE],
                       SubSeq(buf, 1, ms - 1) \o <<59>> \o From(buf, ms))

\* a line is cut at MAXLINE - 1 characters
CleanLine(w, line, dis) ==
  IF Len(line) < MAXLINE THEN Clean(w, line, dis)
  ELSE Clean(IF Len(line) > MAXLINE \/ line[MAXLINE] # LF THEN Err(w, E_SYNTAX, FALSE, T("line too long")) ELSE w,
             Take(line, MAXLINE - 1), dis)

--------------------------------------------------------------------------
\* ".b", ".w" ... on an operation: forced mode (-1 = none) from the extension text
ExtMode(x) ==
  LET a == Or20(At(x, 1))
      b == Or20(At(x, 2))
  IN CASE a = 115 -> AM_SWAP
       [] At(x, 1) # 0 /\ (a = 48 \/ a = 105) ->
            (CASE b = 120 -> AM_0X [] b = 121 -> AM_0Y [] b = 110 -> AM_INDWORD [] OTHER -> AM_IMP)
       [] a \in {100, 98, 122} ->
            (CASE b = 120 -> AM_BYTEADRX [] b = 121 -> AM_BYTEADRY [] b = 105 -> AM_BITMOD
               [] b = 98 -> AM_BITBRAMOD [] OTHER -> AM_BYTEADR)
       [] a \in {101, 119, 97} ->
            (CASE b = 120 -> AM_WORDADRX [] b = 121 -> AM_WORDADRY [] OTHER -> AM_WORDADR)
       [] a = 108 -> AM_LONG
       [] a = 114 -> AM_REL
       [] a = 117 -> AM_BSS
       [] OTHER -> -1

\* split an operation at its dot: [m = mnemonic, ext, mnext]
FindExt(op) ==
  IF At(op, 1) = 46 THEN [m |-> op, ext |-> NoStr, mnext |-> -1]
  ELSE LET i == FindIn(op, 1, {46}) IN
       IF i > Len(op) THEN [m |-> op, ext |-> NoStr, mnext |-> -1]
       ELSE LET x == From(op, i + 1) IN [m |-> SubSeq(op, 1, i - 1), ext |-> x, mnext |-> ExtMode(x)]

UnProtect(s) == Subst(s, QSP, SP)
LabStop == {SP, 61, 58, 44}

RECURSIVE LabelLoop(_, _, _, _, _)
\* the label field; ",symbol" and ",\"text\"" are appended to the name
LabelLoop(w, b, i, lab, und) ==
  LET j == FindIn(b, i, LabStop)
      l1 == lab \o UnProtect(SubSeq(b, i, j - 1))
      c == At(b, j)
  IN IF ~Running(w) THEN [w |-> w, i |-> Len(b) + 1, lab |-> <<>>]
     ELSE IF c = 58 THEN [w |-> w, i |-> j + 1, lab |-> IF und THEN <<>> ELSE l1]
     ELSE IF c # 44 THEN [w |-> w, i |-> j, lab |-> IF und THEN <<>> ELSE l1]
     ELSE IF At(b, j + 1) = 34
     THEN LET k == FindIn(b, j + 2, {34, SP, 44, 58})
              l2 == l1 \o SubSeq(b, j + 2, k - 1)
          IN IF At(b, k) = 34 THEN LabelLoop(w, b, k + 1, l2, und)
             ELSE LabelLoop(Err(w, E_SYNTAX, FALSE, b), b, k, l2, TRUE)
     ELSE LET k == FindIn(b, j + 1, {SP, 61, 44, 58})
              r == Eval(w, SubSeq(b, j + 1, k - 1), FALSE)
              x == r.l[1]
          IN LabelLoop(r.w, b, k, IF x.u THEN l1 ELSE l1 \o DecLow32(x.v), und \/ x.u)

RECURSIVE Squeeze(_, _, _)
\* runs of blanks in the operand become one
Squeeze(s, i, acc) ==
  LET j == FindIn(s, i, {SP}) IN
  IF j > Len(s) THEN acc \o From(s, i)
  ELSE Squeeze(s, SkipIn(s, j, {SP}), acc \o SubSeq(s, i, j))

\* the fields of a cleaned line: [w, lab, op (as written, without extension), arg]
Parse(w0, buf) ==
  LET i0 == SkipIn(buf, 1, {SP})
      c0 == At(buf, i0)
      b  == IF c0 = 35 THEN [buf EXCEPT ![i0] = SP] ELSE buf
      s0 == IF c0 = 94 THEN SkipIn(b, i0 + 1, {SP}) ELSE IF c0 = 35 THEN i0 ELSE 1
      L  == LabelLoop(w0, b, s0, <<>>, FALSE)
      i1 == SkipIn(b, L.i, {SP})
      i2 == IF At(b, i1) = 61 THEN i1 + 1 ELSE FindIn(b, i1, {SP})
      op == UnProtect(SubSeq(b, i1, i2 - 1))
      X  == FindExt(op)
      i3 == SkipIn(b, i2, {SP})
      arg == UnProtect(Squeeze(b, i3, <<>>))
  IN [w |-> [L.w EXCEPT !.ext = X.ext, !.mnext = X.mnext],
      lab |-> L.lab, op |-> X.m, arg |-> arg, txt |-> UnProtect(b)]
=============================================================================
