--------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* The directives.  Each operator takes the state in which a line has been *)
(* fetched (w.lab, w.op, w.arg, w.ext, w.mnext) to the state after it.     *)
(***************************************************************************)
EXTENDS F8

Lab(w) == ProgramLabel(w, w.lab)
Tst(w) == Test(w.tid)

--------------------------------------------------------------------------
(* data *)
DcItem(w, v) == CASE w.mnext = AM_WORDADR -> EndianBytes(w.msb, v, 2)
                  [] w.mnext = AM_SWAP -> EndianBytes(~w.msb, v, 2)
                  [] w.mnext = AM_LONG -> EndianBytes(w.msb, v, 4)
                  [] OTHER -> <<ByteN(v, 0)>>
DcCheck(w, name, v) ==
  CASE w.mnext \in {AM_WORDADR, AM_SWAP} ->
         IF w.opt.strict /\ (Lt(v, N(-65535)) \/ Lt(N(65535), v))
         THEN Err(w, E_LT10000, FALSE, (IF w.mnext = AM_SWAP THEN T("swapped ") ELSE T("word ")) \o name \o <<SP>> \o DecW(v))
         ELSE w
    [] w.mnext = AM_LONG -> w
    [] OTHER -> IF Lt(v, N(-255)) \/ Lt(N(255), v)
                THEN Err(w, E_LT100, FALSE, T("byte ") \o name \o <<SP>> \o DecW(v)) ELSE w

\* DV: the value goes through the EQM expression `mac', in which it is ".."
DvValue(w, v, u, mac, reason) ==
  LET r == Eval([w EXCEPT !.spv = Low32(v), !.spu = u], mac, FALSE)
      x == r.l[1]
  IN [w |-> IF x.u THEN Redo(r.w, reason) ELSE r.w, v |-> x.v]

DataTooLong(w) == Err(w, E_SEGV, TRUE, T("data, line too long"))
RECURSIVE DcChars(_, _, _, _, _), DcElems(_, _, _, _, _, _)
\* the characters of a text operand: [w, b]
DcChars(w, t, i, mac, acc) ==
  IF i > Len(t) \/ ~Running(w) THEN [w |-> w, b |-> acc]
  ELSE IF Len(acc) > CHUNK - 4 THEN [w |-> DataTooLong(w), b |-> acc]
  ELSE LET q == IF mac = NoStr THEN [w |-> w, v |-> N(t[i])] ELSE DvValue(w, N(t[i]), FALSE, mac, R_DVP)
       IN DcChars(q.w, t, i + 1, mac, acc \o DcItem(w, q.v))
DcElems(w, name, l, i, mac, acc) ==
  IF i > Len(l) \/ ~Running(w) THEN [w |-> w, b |-> acc]
  ELSE IF Len(acc) > CHUNK - 4 THEN [w |-> DataTooLong(w), b |-> acc]
  ELSE LET x  == l[i]
           w1 == IF x.u THEN Redo(w, R_DC) ELSE w
       IN IF x.s # NoStr
          THEN LET q == DcChars(w1, x.s, 1, mac, acc) IN DcElems(q.w, name, l, i + 1, mac, q.b)
          ELSE LET q == IF mac = NoStr THEN [w |-> w1, v |-> x.v] ELSE DvValue(w1, x.v, x.u, mac, R_DVC)
               IN DcElems(DcCheck(q.w, name, q.v), name, l, i + 1, mac, acc \o DcItem(w, q.v))

\* name: dc byte word long dv, and on the F8 db dw dd
DcExt(name) == CASE name[1] # 100 -> <<name[1]>>
                 [] name[2] \in {99, 118} -> NoStr
                 [] name[2] = 100 -> <<108>>
                 [] OTHER -> <<name[2]>>
ExecDc(w0, name) ==
  LET w1 == Lab([w0 EXCEPT !.glen = 0])
      x  == DcExt(name)
      w  == IF x = NoStr THEN w1 ELSE [w1 EXCEPT !.ext = x, !.mnext = ExtMode(x)]
      dv == name[2] = 118
      i  == FindIn(w.arg, 1, {SP})
      n  == SubSeq(w.arg, 1, i - 1)
      mac == IF dv THEN SymOf(w, n).s ELSE NoStr
      r  == Eval(w, IF dv THEN From(w.arg, i) ELSE w.arg, FALSE)
      q  == DcElems(r.w, name, r.l, 1, mac, <<>>)
  IN IF dv /\ ~Exists(w, n) THEN Err(w, E_SYNTAX, FALSE, T("EQM label not found"))
     ELSE IF dv /\ ~SymOf(w, n).mac THEN Err(w, E_SYNTAX, FALSE, T("must specify EQM label for DV"))
     ELSE EmitBytes(q.w, q.b)

ExecDs(w0) ==
  LET r == Eval(Lab(w0), w0.arg, FALSE)
      l == r.l
      size == IF w0.mnext = AM_WORDADR THEN 2 ELSE IF w0.mnext = AM_LONG THEN 4 ELSE 1
      fill == IF Len(l) > 1 THEN l[2].v ELSE W0
  IN IF ~Running(r.w) THEN r.w
     ELSE IF l[1].u THEN Redo(r.w, R_DS)
     ELSE GenFill(IF Len(l) > 1 /\ l[2].u THEN Redo(r.w, R_DS) ELSE r.w, fill, l[1].v, size)

HexErr(w, c) == LET w1 == Err(w, E_SYNTAX, FALSE, T("Bad Hex Digit ") \o (IF c = 0 THEN <<>> ELSE <<c>>))
                    m  == T("(Must be a valid hex digit)")
                IN Out(Ev(w1, m), m)
RECURSIVE HexLoop(_, _, _, _)
HexLoop(w, s, i, acc) ==
  IF i > Len(s) THEN [w |-> w, b |-> acc]
  ELSE IF s[i] = SP THEN HexLoop(w, s, i + 1, acc)
  ELSE LET a == s[i]
           b == At(s, i + 1)
           w1 == IF IsHex(a) THEN w ELSE HexErr(w, a)
           w2 == IF IsHex(b) THEN w1 ELSE HexErr(w1, b)
           hv(c) == IF IsHex(c) THEN DigVal(c) ELSE 0
       IN IF b = 0 THEN [w |-> w2, b |-> acc]
          ELSE HexLoop(w2, s, i + 2, Append(acc, 16 * hv(a) + hv(b)))
ExecHex(w0) == LET q == HexLoop(Lab(w0), w0.arg, 1, <<>>) IN EmitBytes(q.w, q.b)

--------------------------------------------------------------------------
(* origins and segments *)
ExecOrg(w0) ==
  LET r == Eval(w0, w0.arg, FALSE)
      l == r.l
      w == SetSeg(r.w, [Seg(r.w) EXCEPT !.org = l[1].v, !.unk = l[1].u])
      w1 == IF Len(l) > 1
            THEN LET f == [w EXCEPT !.ofill = ByteN(l[2].v, 0)] IN IF l[2].u THEN Err(f, E_UNDEF, TRUE, <<>>) ELSE f
            ELSE w
  IN IF Running(r.w) THEN Lab(w1) ELSE r.w
ExecRorg(w0) ==
  LET r == Eval(w0, w0.arg, FALSE)
      x == r.l[1]
      s == [Seg(r.w) EXCEPT !.ron = TRUE]
  IN IF ~Running(r.w) THEN r.w
     ELSE Lab(SetSeg(r.w, IF x.am = AM_IMP THEN s ELSE [s EXCEPT !.rorg = x.v, !.runk = x.u]))
ExecRend(w0) == LET w == Lab(w0) IN SetSeg(w, [Seg(w) EXCEPT !.ron = FALSE])
ExecAlign(w0) ==
  LET r == Eval(w0, w0.arg, FALSE)
      l == r.l
      x == l[1]
      w == r.w
      w1 == IF Len(l) > 1 /\ l[2].u THEN Redo(w, R_ALIGN) ELSE w
      fill == IF Len(l) > 1 /\ ~l[2].u THEN ByteN(l[2].v, 0) ELSE 0
      n == Sub(x.v, UMod(PC(w), x.v))
  IN IF ~Running(w) THEN w
     ELSE IF ~x.u /\ x.v = W0 THEN Err(w, E_DIV0, TRUE, <<>>)
     ELSE IF PCUnk(w) \/ x.u THEN Lab(Redo(w1, IF Seg(w).ron THEN R_ALIGNR ELSE R_ALIGNN))
     ELSE Lab(IF n # x.v THEN GenFill(w1, N(fill), n, 1) ELSE w1)
ExecSeg(w) ==
  Lab([w EXCEPT !.cs = w.arg,
                !.segs = IF w.arg \in DOMAIN @ THEN @ ELSE @ @@ (w.arg :> FreshSeg(w.mnext = AM_BSS))])
ExecSubroutine(w) == Lab([w EXCEPT !.lloc = @ + 1, !.loc = w.lloc + 1])

--------------------------------------------------------------------------
(* symbols *)
\* the symbol the line's label names, created if need be: [w, s]
Define(w, n) == IF Exists(w, n) THEN [w |-> w, s |-> SymOf(w, n)]
                ELSE [w |-> [w EXCEPT !.scount = @ + 1], s |-> NewSym(w.scount + 1)]
Assigned(s, x) == [NewSym(s.ord) EXCEPT !.v = x.v, !.u = x.u, !.s = x.s]

ExecEqu(w0) ==
  LET r == Eval(w0, w0.arg, FALSE)
      x == r.l[1]
      d == Define(r.w, w0.lab)
      w1 == IF d.s.u THEN d.w
            ELSE IF x.u THEN Redo(d.w, R_EQU)
            ELSE IF d.s.v # x.v THEN Redo(Err(d.w, E_EQUMIS, FALSE, <<>>), R_EQUM)
            ELSE d.w
      w2 == PutSym(w1, w0.lab, Assigned(d.s, x))
      two == EndianBytes(TRUE, x.v, 2)
      bytes == IF ULt(N(65535), x.v) THEN EndianBytes(TRUE, x.v, 4) ELSE two
  IN IF ~Running(r.w) THEN r.w
     ELSE IF w0.lab \in {DOT, <<42>>}
     THEN LET v == [r.w EXCEPT !.lab = DOT] IN IF Seg(v).ron THEN ExecRorg(v) ELSE ExecOrg(v)
     ELSE [GenPut(w2, bytes) EXCEPT !.glen = Len(bytes)]

ExecEqm(w) ==
  LET d == Define(w, w.lab) IN
  PutSym(d.w, w.lab, [NewSym(d.s.ord) EXCEPT !.u = FALSE, !.s = w.arg, !.set = TRUE, !.mac = TRUE])

RECURSIVE DynName(_, _, _, _, _)
\* "name,part,..." of SET: texts and values are appended to the name: [w, n, und]
DynName(w, s, i, n, und) ==
  LET c == At(s, i) IN
  IF c \in {0, 34, SP} \/ ~Running(w) THEN [w |-> w, n |-> n, und |-> und]
  ELSE IF At(s, i + 1) = 34
  THEN LET j == FindIn(s, i + 2, {34, SP, 44})
           m == n \o SubSeq(s, i + 2, j - 1)
       IN IF At(s, j) = 34 THEN DynName(w, s, j + 1, m, und)
          ELSE DynName(Err(w, E_SYNTAX, FALSE, s), s, j, m, und)
  ELSE LET r == Eval(w, CutAt(From(s, i + 1), {44}), FALSE)
           x == r.l[1]
           j == FindIn(s, i + 1, {SP, 44})
       IN DynName(r.w, s, j, IF x.u THEN n ELSE n \o DecLow32(x.v), und \/ x.u)

SetTo(w0, str) ==
  LET i == FindIn(str, 1, {34, SP, 44})
      D == DynName(w0, str, i, SubSeq(str, 1, i - 1), FALSE)
      dyn == At(str, i) = 44
      r == IF dyn THEN Eval(D.w, D.n, FALSE) ELSE Eval(w0, str, FALSE)
      d == Define(r.w, w0.lab)
  IN IF dyn /\ ~Running(D.w) THEN D.w
     ELSE IF dyn /\ D.und THEN Redo(D.w, R_OBSCURE)
     ELSE IF ~Running(r.w) THEN r.w
     ELSE PutSym(d.w, w0.lab, Assigned(d.s, r.l[1]))
ExecSet(w) == SetTo(w, w.arg)
ExecSetstr(w) == SetTo(w, <<34>> \o w.arg \o <<34>>)
ExecSetsym(w) ==
  LET r == Eval(w, w.arg, FALSE)
      x == r.l[1]
  IN IF ~Running(r.w) THEN r.w
     ELSE IF x.u THEN Redo(r.w, R_OBSCURE)
     ELSE IF x.s = NoStr THEN Err(r.w, E_TYPE, FALSE, <<>>)
     ELSE SetTo(r.w, x.s)

RECURSIVE EchoText(_, _)
EchoText(l, i) == IF i > Len(l) THEN <<>>
                  ELSE (IF l[i].u THEN <<>>
                        ELSE <<SP>> \o (IF l[i].s # NoStr THEN l[i].s ELSE <<36>> \o HexW(l[i].v, 1)))
                       \o EchoText(l, i + 1)
ExecEcho(w) == LET r == Eval(w, w.arg, FALSE)
                   t == EchoText(r.l, 1)
               IN IF Running(r.w) THEN [Ev(r.w, t) EXCEPT !.msgs = Append(@, t)] ELSE r.w

--------------------------------------------------------------------------
(* conditionals and loops *)
PushIf(w, x) == [w EXCEPT !.ifs = Append(@, [fid |-> Top(w).fid, x |-> x, a |-> Active(w), base |-> FALSE])]
ExecIfConst(w0, want) ==
  LET r == Eval(Lab(w0), w0.arg, FALSE) IN
  IF ~Active(w0) THEN PushIf(w0, FALSE) ELSE PushIf(r.w, (~r.l[1].u) = want)
ExecIf(w0) ==
  LET r == Eval(Lab(w0), w0.arg, FALSE)
      x == r.l[1]
      p == PushIf(Redo(r.w, R_IF), FALSE)
  IN IF ~Active(w0) THEN PushIf(w0, FALSE)
     ELSE IF x.u \/ x.s # NoStr THEN [p EXCEPT !.ifs[Len(p.ifs)].a = FALSE, !.ifnow = TRUE]
     ELSE PushIf(r.w, x.v # W0)
ExecElse(w) ==
  IF IfTop(w).a /\ ~IfTop(w).base
  THEN LET v == Lab(w) IN [v EXCEPT !.ifs[Len(v.ifs)].x = ~@] ELSE w
ExecEndif(w) ==
  IF IfTop(w).base THEN w
  ELSE LET v == IF IfTop(w).a THEN Lab(w) ELSE w IN
       IF IfTop(v).fid # Top(v).fid THEN Out(v, T("too many endif's"))
       ELSE [v EXCEPT !.ifs = SubSeq(@, 1, Len(@) - 1)]

ExecRepeat(w0) ==
  LET r == Eval(Lab(w0), w0.arg, FALSE)
      x == r.l[1]
      w == r.w
      f == Top(w)
      bad == x.u \/ x.s # NoStr
      w1 == [w EXCEPT !.reps = Append(@, [fid |-> f.fid, pos |-> f.pos, ln |-> f.ln, cnt |-> x.v, bad |-> bad])]
  IN IF ~Active(w0) THEN PushIf(w0, FALSE)
     ELSE IF ~Running(w) THEN w
     ELSE IF x.v = W0 THEN PushIf(IF x.u THEN Redo(w, R_REPEAT) ELSE w, FALSE)
     ELSE IF IsNeg(x.v) /\ ~x.u THEN Err(PushIf(w, FALSE), E_REPNEG, FALSE, <<>>)
     ELSE PushIf(IF bad THEN Redo(w1, R_REPEAT) ELSE w1, TRUE)
ExecRepend(w) ==
  LET k == Len(w.reps)
      rp == w.reps[k]
  IN IF ~Active(w) THEN ExecEndif(w)
     ELSE IF k = 0 \/ rp.fid # Top(w).fid THEN Out(w, T("no repeat"))
     ELSE IF ~rp.bad /\ rp.cnt # W1
     THEN SetTop([w EXCEPT !.reps[k].cnt = Inc(@, -1)], [Top(w) EXCEPT !.pos = rp.pos, !.ln = rp.ln])
     ELSE ExecEndif([w EXCEPT !.reps = SubSeq(@, 1, k - 1)])

\* loops and conditionals opened in a frame end with it
RECURSIVE DropIfs(_, _), DropReps(_, _)
DropIfs(s, fid) == IF s # <<>> /\ s[Len(s)].fid = fid THEN DropIfs(SubSeq(s, 1, Len(s) - 1), fid) ELSE s
DropReps(s, fid) == IF s # <<>> /\ s[Len(s)].fid = fid THEN DropReps(SubSeq(s, 1, Len(s) - 1), fid) ELSE s
PopFrame(w) == LET f == Top(w).fid IN
               [w EXCEPT !.ifs = DropIfs(@, f), !.reps = DropReps(@, f), !.fr = SubSeq(@, 1, Len(@) - 1)]

--------------------------------------------------------------------------
(* macros *)
MAXMACLEVEL == 32
RECURSIVE MacArgs(_, _, _)
MacArgs(s, i, acc) ==
  IF At(s, i) \in {0, LF} THEN acc
  ELSE LET j == FindIn(s, i, {LF, 44}) IN
       MacArgs(s, SkipIn(s, IF At(s, j) = 44 THEN j + 1 ELSE j, {SP}), Append(acc, SubSeq(s, i, j - 1)))
ExecMacCall(w0, name) ==
  LET w == Lab(w0) IN
  IF w.mlev = MAXMACLEVEL
  THEN Err(w, E_DEEP, TRUE, T(" macro [") \o name \o T("] recursion > ") \o DecNat(MAXMACLEVEL))
  ELSE [w EXCEPT !.mlev = @ + 1, !.fid = @ + 1, !.lloc = @ + 1, !.loc = w.lloc + 1, !.ldol = @ + 1, !.dol = w.ldol + 1,
                 !.fr = Append(@, [mac |-> TRUE, name |-> name, key |-> name, ln |-> 0, pos |-> 1, nol |-> FALSE, fid |-> w.fid + 1,
                                   args |-> <<w.arg>> \o MacArgs(w.arg, 1, <<>>), sloc |-> w.loc, sdol |-> w.dol])]
LeaveMacro(w) == LET f == Top(w) IN
                 IF f.mac THEN [PopFrame(w) EXCEPT !.mlev = @ - 1, !.loc = f.sloc, !.dol = f.sdol]
                 ELSE Out(w, T("not within a macro"))

\* the line of a file or macro the frame is at
FileLines(w, f) == Tst(w).files[f.key]
SourceLines(w, f) == IF f.mac THEN w.macs[f.key].body ELSE FileLines(w, f)

RECURSIVE LeaveMacros(_)
LeaveMacros(w) == IF Top(w).mac THEN LeaveMacros(LeaveMacro(w)) ELSE w
ExecEnd(w0) == LET w == LeaveMacros(w0) IN SetTop(w, [Top(w) EXCEPT !.pos = Len(FileLines(w, Top(w))) + 1])

\* which operation a name stands for: <<class, name>>
Directives == {T(x) : x \in {"list", "include", "seg", "hex", "err", "dc", "byte", "word", "long", "ds", "dv", "end", "trace",
                 "org", "rorg", "rend", "align", "subroutine", "equ", "=", "eqm", "set", "setstr", "setsym", "mac",
                 "macro", "endm", "mexit", "ifconst", "ifnconst", "ifndef", "if", "else", "endif", "eif", "repeat",
                 "repend", "echo", "processor", "incbin", "incdir"}}
SkipToo == {T(x) : x \in {"mac", "macro", "ifconst", "ifnconst", "ifndef", "if", "else", "endif", "eif", "repeat", "repend"}}
N_MAC == T("mac")  N_MACRO == T("macro")  N_ENDM == T("endm")
Lookup(w, op) ==
  LET n == Lower(IF At(op, 1) = 46 THEN From(op, 2) ELSE op) IN
  IF n \in DOMAIN CpuTables[w.proc] THEN <<"cpu", n>>
  ELSE IF n \in DOMAIN w.macs THEN <<"mac", n>>
  ELSE IF n \in Directives THEN <<"dir", n>>
  ELSE <<"none", n>>
Counted(w, k) == IF k[1] # "dir" THEN w
                 ELSE IF k[2] \in {N_MAC, N_MACRO} THEN [w EXCEPT !.nmd = @ + 1]
                 ELSE IF k[2] = N_ENDM THEN [w EXCEPT !.nmc = @ + 1] ELSE w

--------------------------------------------------------------------------
(* the listing *)
ListText(w, com) ==
  LET f == Top(w)
      b == [i \in 1..4 |-> IF i <= w.glen THEN Hex2(w.gen[i]) \o <<SP>> ELSE Blanks(3)]
      mark == IF w.glen > 4 THEN 42 ELSE IF Active(w) THEN SP ELSE 45
      bytes == b[1] \o b[2] \o b[3] \o b[4]
      ext == IF w.ext = NoStr THEN <<>> ELSE <<46>> \o w.ext
      t == PadL(DecNat(f.ln), 7) \o <<SP, IF w.pbss THEN 85 ELSE SP>>
           \o SFlags(w, w.plab, w.punk, FALSE, FALSE, FALSE, FALSE)
           \o SubSeq(bytes, 1, 11) \o <<mark>> \o PadR(w.lab, 10) \o <<SP>> \o w.op \o ext \o <<TAB>> \o w.arg
  IN IF Find1(t, LF) # 0 \/ com = <<>> THEN t ELSE t \o <<TAB, 59>> \o com
\* print the current line if listing is on
ListLine(w, com) ==
  IF ~Running(w) \/ ~w.lm THEN w
  ELSE IF Top(w).nol THEN [w EXCEPT !.glen = 0]
  ELSE [Ev(w, CutAt(ListText(w, com), {LF})) EXCEPT !.glen = 0, !.ext = NoStr]

ExecList(w0) ==
  LET w == [Lab(w0) EXCEPT !.glen = 0]
      Is(k, s) == Take(w.arg, k) \in {T(s[1]), T(s[2])} 
  IN IF Is(7, <<"localof", "LOCALOF">>) THEN SetTop(w, [Top(w) EXCEPT !.nol = TRUE])
     ELSE IF Is(7, <<"localon", "LOCALON">>) THEN SetTop(w, [Top(w) EXCEPT !.nol = FALSE])
     ELSE IF Is(2, <<"of", "OF">>) THEN [w EXCEPT !.lm = FALSE]
     ELSE [w EXCEPT !.lm = TRUE]

--------------------------------------------------------------------------
(* macro definition: collect lines up to ENDM *)
RECURSIVE MacroBody(_, _, _, _)
\* [w, body, ok]
MacroBody(w, body, keep, skip) ==
  LET f == Top(w)
      lines == FileLines(w, f)
      c == CleanLine(SetTop(w, [f EXCEPT !.pos = @ + 1, !.ln = @ + 1]), lines[f.pos], TRUE)
      p == Parse(c.w, c.t)
      k == Lookup(p.w, p.op)
      v == [Counted(p.w, k) EXCEPT !.lab = p.lab, !.op = p.op, !.arg = p.arg]
      v1 == IF skip THEN v ELSE ListLine(v, c.c)
  IN IF ~Running(w) \/ f.pos > Len(lines) THEN [w |-> w, body |-> body, ok |-> FALSE]
     ELSE IF p.op # <<>> /\ k = <<"dir", N_ENDM>> THEN [w |-> v, body |-> body, ok |-> TRUE]
     ELSE MacroBody(v1, IF keep THEN Append(body, p.txt) ELSE body, keep, skip)

ExecMacro(w0) ==
  LET skip == ~Active(w0)
      name == Lower(w0.arg)
      k    == Lookup(w0, w0.arg)
      wl   == [w0 EXCEPT !.arg = name]
      w1   == IF skip THEN wl ELSE ListLine(wl, <<>>)
      keep == ~skip /\ k[1] = "none"
      r    == MacroBody(w1, <<>>, keep, skip)
  IN IF ~skip /\ ~keep /\ w0.opt.strict /\ k[1] = "mac" /\ w0.macs[k[2]].pass = w0.pass
     THEN Err(w1, E_MACREP, TRUE, name)
     ELSE IF ~r.ok THEN Err(r.w, E_EOF, TRUE, <<>>)
     ELSE IF keep THEN [r.w EXCEPT !.macs = @ @@ (name :> [body |-> r.body, pass |-> w0.pass])]
     ELSE r.w

--------------------------------------------------------------------------
(* files *)
FileName(s) == IF At(s, 1) = 34 THEN CutAt(From(s, 2), {34}) ELSE s
AddPart(dir, f) == IF dir # <<>> /\ dir[Len(dir)] \notin {58, 47} THEN dir \o <<47>> \o f ELSE dir \o f
\* the path a name resolves to in the given set of files, or NoStr
RECURSIVE InDirs(_, _, _, _)
InDirs(dirs, i, name, have) == IF i > Len(dirs) THEN NoStr
                               ELSE IF AddPart(dirs[i], name) \in have THEN AddPart(dirs[i], name)
                               ELSE InDirs(dirs, i + 1, name, have)
Resolve(w, name, have) == IF name \in have THEN name
                          ELSE IF Find1(name, 58) # 0 THEN NoStr
                          ELSE InDirs(w.idirs, 1, name, have)

PushInclude(w, name) ==
  LET key == Resolve(w, name, DOMAIN Tst(w).files)
      w1 == Ev(w, T("------- FILE ") \o name \o T(" LEVEL ") \o DecNat(w.ilev + 1) \o T(" PASS ") \o DecNat(w.pass))
  IN IF ~Running(w) THEN w
     ELSE IF key = NoStr THEN Redo(Err(w, E_FILE, FALSE, <<>>), R_INCLUDE)
     ELSE [w1 EXCEPT !.ilev = @ + 1, !.fid = @ + 1,
                     !.fr = Append(@, [mac |-> FALSE, name |-> name, key |-> key, ln |-> 0, pos |-> 1, nol |-> FALSE,
                                       fid |-> w.fid + 1, args |-> <<>>, sloc |-> 0, sdol |-> 0])]
ExecInclude(w0) ==
  LET w == Lab(w0)
      r == Eval(w, w.arg, FALSE)
  IN IF IsDigit(At(w.arg, 1)) THEN PushInclude(w, FileName(w.arg))
     ELSE IF r.l[1].s # NoStr THEN PushInclude(r.w, r.l[1].s)
     ELSE PushInclude(r.w, FileName(w.arg))
ExecIncdir(w) == LET d == FileName(w.arg) IN
                 IF \E i \in DOMAIN w.idirs : w.idirs[i] = d THEN w ELSE [w EXCEPT !.idirs = Append(@, d)]

RECURSIVE BinChunks(_, _, _)
BinChunks(w, b, i) ==
  IF i > Len(b) \/ ~Running(w) THEN w
  ELSE LET d == SubSeq(b, i, Min(Len(b), i + CHUNK - 1)) IN BinChunks(Generate(GenPut(w, d), Len(d), d), b, i + CHUNK)
ExecIncbin(w0) ==
  LET r == Eval(Lab(w0), w0.arg, FALSE)
      l == r.l
      neg == Len(l) > 1 /\ IsNeg(l[2].v)
      w == IF neg /\ l[1].s # NoStr /\ ~l[2].u THEN Err(r.w, E_SYNTAX, FALSE, w0.arg) ELSE r.w
      key == Resolve(w, FileName(l[1].s), DOMAIN Tst(w).bins)
      b == Tst(w).bins[key]
      skip == IF Len(l) > 1 /\ ~neg THEN l[2].v ELSE W0
      from == IF Lt(N(Len(b)), skip) THEN Len(b) ELSE IntOf(skip)
      w1 == IF w.redo > 0 THEN Generate(w, Len(b) - from, <<0>>) ELSE BinChunks(w, From(b, from + 1), 1)
  IN IF ~Running(w) THEN w
     ELSE IF l[1].s = NoStr THEN Redo(Err(w, E_TYPE, FALSE, <<>>), R_INCBIN)
     ELSE IF Len(l) > 1 /\ l[2].u THEN Err(w, E_UNDEF, TRUE, <<>>)
     ELSE IF key = NoStr THEN Err(w, E_FILE, TRUE, <<>>)
     ELSE [w1 EXCEPT !.glen = 0]

Cpus == (T("6502") :> "6502") @@ (T("65c02") :> "65c02") @@ (T("65C02") :> "65c02") @@ (T("6803") :> "6803")
     @@ (T("HD6303") :> "6303") @@ (T("hd6303") :> "6303") @@ (T("68705") :> "68705") @@ (T("68HC11") :> "6811")
     @@ (T("68hc11") :> "6811") @@ (T("F8") :> "f8") @@ (T("f8") :> "f8") @@ (T("68908") :> "68908") @@ (T("68hc908") :> "68908")
ExecProcessor(w) ==
  IF w.arg \notin DOMAIN Cpus THEN Err(w, E_CPU, TRUE, w.arg)
  ELSE LET p == Cpus[w.arg] IN
       IF w.proc \notin {"none", p} THEN Err(w, E_ONECPU, TRUE, w.arg)
       ELSE [w EXCEPT !.proc = p, !.msb = p \notin {"6502", "65c02"}]
=============================================================================
