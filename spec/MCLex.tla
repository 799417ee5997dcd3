-------------------------------- MODULE MCLex -------------------------------
(***************************************************************************)
(* C19: a line means the same however it is written: every combination of  *)
(* blanks, comments, case, leading dot or #, colon or ^ on the label and   *)
(* line end gives the same label, operation, extension and operand.        *)
(***************************************************************************)
EXTENDS MCBase

\* label, operation, extension (with its dot), operand
Lines0 == << <<"", "dc", "", "1">>, <<"lab", "dc", ".w", "lab+1,2">>, <<"lab", "equ", "", "5">>, <<"", "lda", "", "(4),y">>, <<"x1", "dc", "", "\"a;b  c\",';,' ">>,
             <<".loc", "nop", "", "">>, <<"", "mexit", "", "">>, <<"lab", "", "", "">>, <<"9$", "lda", ".wx", "1,x">>, <<"", "echo", "", "\"/\",1">>,
             <<"", "dc", "", "'\"">>, <<"l", "=", "", "1">>, <<"", "dc", "", "\"/*\",'/,'*,\"*/;\"">> >>
Gaps == << <<SP>>, <<TAB>>, <<SP, SP>>, <<SP, TAB, SP>> >>
Comments == << <<>>, T(";c"), T(" ; c \"d"), T(" /* c */"), T("/*;*/"), T(" /* a */ ; b"), T(" /* a */ /* ; */"), <<TAB, 59>>, T(";/*"), T(";*/"),
               T("/*\"*/"), T("/*/**/"), T("/*/ '*/"), T("/* a;\" */;'") >>
Ends == << <<LF>>, <<CR, LF>>, <<>> >>
Starts == << "plain", "upper", "dot", "hash", "caret" >>

Up(str) == [k \in 1..Len(T(str)) |-> LET c == T(str)[k] IN IF IsLower(c) THEN c - 32 ELSE c]
\* x: line, g1, g2: gaps, c: comment, e: end, s: start, colon
Written(x) ==
  LET b == Lines0[x.line]
      lab == T(b[1])
      op == IF b[2] = "" THEN <<>>
            ELSE (IF x.s = 3 THEN <<46>> ELSE IF x.s = 4 THEN <<35>> ELSE <<>>)
                 \o (IF x.s = 2 THEN Up(b[2]) ELSE T(b[2])) \o T(b[3])
      left == IF lab = <<>> THEN Gaps[x.g1]
              ELSE (IF x.s = 5 THEN <<94>> \o Gaps[x.g1] ELSE <<>>) \o lab \o (IF x.colon THEN <<58>> ELSE <<>>)
                   \o (IF op = <<>> THEN <<>> ELSE Gaps[x.g1])
  IN left \o op \o (IF b[4] = "" THEN <<>> ELSE Gaps[x.g2] \o T(b[4])) \o Comments[x.c] \o Ends[x.e]
\* the line in a program; line 0: none
MCTest(x) == Program(IF x.line = 0 THEN <<>> ELSE <<L(" processor 6502"), L(" org 256"), Written(x)>> \o (IF Ends[x.e] = <<>> THEN <<>> ELSE <<L(" dc 7")>>))
\* a leading # replaces the blanks before an operation, and a colon ends a label that is there
Legal(x) == LET b == Lines0[x.line] IN
            /\ (x.colon => b[1] # "" /\ b[2] \notin {"=", "equ"}) /\ (x.s = 4 => b[1] = "" /\ b[2] # "") /\ (x.s = 5 => b[1] # "")
            /\ (x.s = 3 => b[2] # "" /\ b[2] # "=" /\ b[3] = "") /\ (x.s = 2 => b[2] # "" /\ b[2] # "=")
Seen(x) ==
  LET c == Clean(StartPass(State0([line |-> 0])), Written(x), FALSE)
      p == Parse(c.w, c.t)
  IN [lab |-> p.lab, op |-> Lookup(p.w, p.op), ext |-> p.w.ext, mnext |-> p.w.mnext, arg |-> RTrim(p.arg, {SP}), ok |-> Running(p.w) /\ p.w.errs = <<>> /\ ~p.w.ml]
Standard(k) == [line |-> k, g1 |-> 1, g2 |-> 1, c |-> 1, e |-> 1, s |-> 1, colon |-> FALSE]
Meant(k) == LET b == Lines0[k] IN [lab |-> T(b[1]), op |-> Seen(Standard(k)).op, ext |-> IF b[3] = "" THEN NoStr ELSE From(T(b[3]), 2),
                                   mnext |-> Seen(Standard(k)).mnext, arg |-> RTrim(T(b[4]), {SP}), ok |-> TRUE]

Init == \E k \in 1..Len(Lines0) : \E g1, g2 \in 1..MaxLen : \E c \in 1..Len(Comments) : \E e \in 1..Len(Ends) : \E st \in 1..Len(Starts) : \E col \in BOOLEAN :
          LET x == [line |-> k, g1 |-> g1, g2 |-> g2, c |-> c, e |-> e, s |-> st, colon |-> col] IN Legal(x) /\ w = [x |-> x, done |-> FALSE]
Read0(v) == ~v.done /\ w' = [x |-> v.x, done |-> TRUE]
Next == <<Read0(w)>>_w
Spec == Init /\ [][Next]_w
Check(v) == Seen(v.x) = Meant(v.x.line)
Theorem == [][Check(w')]_w
ReportLine(v) == v.done => LET z == Result(v.x) IN Tell(MCTest(v.x), z.exit, OutFile(z))
LexReports == [][ReportLine(w')]_w
=============================================================================
