-------------------------------- MODULE Cmd ---------------------------------
(***************************************************************************)
(* The command line: the first argument is the source file, every further  *)
(* one an option, a letter after - or / with its text attached.  Options   *)
(* are taken in order.  One that is not known or whose text is not allowed *)
(* ends it: the command line is refused, nothing is assembled and no file  *)
(* is touched.                                                             *)
(***************************************************************************)
EXTENDS Dasm

Ch(s) == T(s)[1]
Refuse(c) == [c EXCEPT !.bad = TRUE]
Definition(k, s) == LET n == CutAt(s, {Ch("=")}) IN
                    [k |-> k, name |-> n, val |-> IF Len(n) = Len(s) THEN T("0") ELSE From(s, Len(n) + 2)]

\* the options c followed by one more
Option(c, a) ==
  IF Len(a) < 2 \/ a[1] \notin {Ch("-"), Ch("/")} THEN Refuse(c) ELSE
  LET x == a[2]
      s == From(a, 3)
      n == Atoi(s, 1)
      Named(d) == IF s = <<>> THEN Refuse(c) ELSE d
  IN CASE x = Ch("E") -> IF n \in 0..2 THEN [c EXCEPT !.errfmt = n] ELSE Refuse(c)
       [] x = Ch("T") -> IF n \in 0..2 THEN [c EXCEPT !.sort = n] ELSE Refuse(c)
       [] x = Ch("f") -> IF n \in 1..3 THEN [c EXCEPT !.fmt = n] ELSE Refuse(c)
       [] x = Ch("o") -> Named([c EXCEPT !.out = s])
       [] x = Ch("l") -> Named([c EXCEPT !.list = s])
       [] x = Ch("L") -> Named([c EXCEPT !.list = s, !.all = TRUE])      \* -l later changes the name only
       [] x = Ch("s") -> Named([c EXCEPT !.sym = s, !.symfile = TRUE])
       [] x = Ch("p") -> [c EXCEPT !.maxp = n]
       [] x = Ch("P") -> [c EXCEPT !.maxp = n, !.allp = TRUE]
       [] x = Ch("m") -> IF n > 64 THEN [c EXCEPT !.maxfs = n * 1024] ELSE Refuse(c)
       [] x = Ch("S") -> [c EXCEPT !.strict = TRUE]
       [] x = Ch("R") -> [c EXCEPT !.remove = TRUE]
       [] x = Ch("D") -> [c EXCEPT !.defs = Append(@, Definition("D", s))]
       [] x = Ch("M") -> [c EXCEPT !.defs = Append(@, Definition("M", s))]
       [] x = Ch("I") -> [c EXCEPT !.defs = Append(@, [k |-> "I", name |-> <<>>, val |-> s])]
       [] x = Ch("d") -> [c EXCEPT !.said = Append(@, T("Debug trace ") \o (IF n # 0 THEN T("ON") ELSE T("OFF")))]
       [] x = Ch("v") -> c                                               \* what it says is not specified
       [] OTHER -> Refuse(c)

Defaults(main) ==
  [main |-> main, fmt |-> 1, errfmt |-> 0, strict |-> FALSE, maxfs |-> 640 * 1024, maxp |-> 10, allp |-> FALSE, remove |-> FALSE,
   sort |-> 0, defs |-> <<>>, last |-> FALSE, symfile |-> FALSE, out |-> T("a.out"), list |-> NoStr, all |-> FALSE, sym |-> NoStr,
   said |-> <<>>, bad |-> FALSE, cant |-> NoStr]
RECURSIVE Taken(_, _, _)
Taken(c, argv, k) == IF k > Len(argv) \/ c.bad THEN c ELSE Taken(Option(c, argv[k]), argv, k + 1)

\* the directory of a file name, with its slash
RECURSIVE LastSlash(_, _)
LastSlash(s, k) == IF k = 0 \/ s[k] = Ch("/") THEN k ELSE LastSlash(s, k - 1)
DirOf(s) == Take(s, LastSlash(s, Len(s)))
\* what the arguments after the name of the program ask for; there: the names of the files that exist
Options(argv, there) ==
  IF argv = <<>> THEN Refuse(Defaults(<<>>))
  ELSE LET c == Taken(Defaults(argv[1]), argv, 2)
           Can(f) == f = NoStr \/ DirOf(f) = <<>> \/ \E x \in there : DirOf(x) = DirOf(f)
       IN IF c.maxp < 0 THEN Refuse(c)
          ELSE [c EXCEPT !.cant = IF ~Can(c.out) THEN c.out ELSE IF ~Can(c.list) THEN c.list ELSE NoStr,
                         !.symfile = c.sym # NoStr /\ Can(c.sym)]

--------------------------------------------------------------------------
(* the files a run leaves behind *)
Writes(v) == ~v.opt.bad /\ (v.exit \in {0, E_NOTRES, E_NONABORT, E_COMEND} \/ v.opt.cant # NoStr)      \* exits that write the symbol file
Made(v) ==     \* files it makes or writes anew
  LET c == v.opt IN
  IF c.bad THEN {}
  ELSE (IF c.cant = c.out THEN {} ELSE {c.out})
       \union (IF c.list = NoStr \/ c.cant # NoStr THEN {} ELSE {c.list})
       \union (IF c.symfile /\ Writes(v) THEN {c.sym} ELSE {})
Gone(v) == IF ~v.opt.bad /\ v.exit # 0 /\ v.opt.remove THEN {v.opt.out} ELSE {}
=============================================================================
