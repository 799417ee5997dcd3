-------------------------------- MODULE MCCmd -------------------------------
(***************************************************************************)
(* C22: every command line of a few options of an alphabet, for a program  *)
(* that assembles and for one that does not.  What it should come to is    *)
(* said option by option: the last one of a kind decides, one that is not  *)
(* allowed refuses the whole line, wherever it stands.                     *)
(***************************************************************************)
EXTENDS MCBase, Cmd

Opt(k) == CASE k = 1 -> T("-f1") [] k = 2 -> T("-f2") [] k = 3 -> T("/f3") [] k = 4 -> T("-ox") [] k = 5 -> T("-od/y")
            [] k = 6 -> T("-lx.l") [] k = 7 -> T("-Ly.l") [] k = 8 -> T("-sz") [] k = 9 -> T("-R") [] k = 10 -> T("-Daa=5")
            [] k = 11 -> T("-Daa=6") [] k = 12 -> T("-Daa") [] k = 13 -> T("-p1") [] k = 14 -> T("-P5") [] k = 15 -> T("-T2")
            [] k = 16 -> T("-Maa=7") [] k = 17 -> T("/R") [] k = 18 -> T("-S")
            [] k = 19 -> T("-f4") [] k = 20 -> T("-q") [] k = 21 -> T("-o") [] k = 22 -> T("m.asm") [] k = 23 -> T("-E3")
            [] k = 24 -> T("-p-1") [] k = 25 -> T("-m64") [] k = 26 -> <<>>
K == 26
Wrong == {19, 20, 21, 22, 23, 25, 26}
\* id = <<options, does the program assemble>>
Argv(id) == <<Main>> \o [k \in DOMAIN id[1] |-> Opt(id[1][k])]
There == {Main, T("d/old"), T("x")}
MCTest(id) ==
  LET ls == <<L(" org 16"), L(" ifconst aa"), L(" dc aa"), L(" endif"), L(" dc.w lab"), L("lab")>> \o (IF id[2] THEN <<>> ELSE <<L(" nonsense")>>)
  IN [files |-> (Main :> ls), bins |-> EmptyMap, opt |-> Options(Argv(id), There)]

Init == \E n \in 0..MaxLen : \E p \in [1..n -> 1..K] : \E ok \in BOOLEAN : w = State0(<<p, ok>>)
Next == <<Steps(w)>>_w
Spec == Init /\ [][Next]_w

Latest(id, S) == LET at == {k \in DOMAIN id[1] : id[1][k] \in S} IN
               IF at = {} THEN 0 ELSE id[1][CHOOSE k \in at : \A j \in at : j <= k]
Has(id, S) == Latest(id, S) # 0
\* a negative number of passes is refused unless a later one replaces it
Refused(id) == Has(id, Wrong) \/ Latest(id, {13, 14, 24}) = 24
Value(id) == LET k == Latest(id, {10, 11, 12, 16}) IN
             CASE k = 0 -> <<>> [] k = 10 -> <<5>> [] k = 11 -> <<6>> [] k = 12 -> <<0>> [] k = 16 -> <<7>>
Code(id) == Value(id) \o <<0, 18 + Len(Value(id))>>         \* no processor: high byte first
Format(id) == LET k == Latest(id, {1, 2, 3}) IN IF k = 0 THEN 1 ELSE k
Written(id) == CASE Format(id) = 1 -> <<16, 0>> \o Code(id)
              [] Format(id) = 2 -> <<16, 0, Len(Code(id)), 0>> \o Code(id)
              [] Format(id) = 3 -> Code(id)
Status(id) == IF Refused(id) THEN 1 ELSE IF Latest(id, {13, 14}) = 13 THEN 4 ELSE IF ~id[2] THEN 5 ELSE 0
OutName(id) == LET k == Latest(id, {4, 5}) IN CASE k = 0 -> T("a.out") [] k = 4 -> T("x") [] k = 5 -> T("d/y")
Names(id) ==
  IF Refused(id) THEN There
  ELSE LET l == Latest(id, {6, 7}) IN
       (There \ {OutName(id)})
       \union (IF Status(id) # 0 /\ Has(id, {9, 17}) THEN {} ELSE {OutName(id)})
       \union (IF l = 0 THEN {} ELSE {IF l = 6 THEN T("x.l") ELSE T("y.l")})
       \union (IF Has(id, {8}) /\ Status(id) # 4 THEN {T("z")} ELSE {})
Check(v) ==
  Ended(v) =>
  /\ v.exit = Status(v.tid)
  /\ (There \union Made(v)) \ Gone(v) = Names(v.tid)
  /\ v.exit = 0 => OutFile(v) = Written(v.tid)
Theorem == [][Check(w')]_w

CmdReport(v) ==
  Ended(v) =>
  PrintT(<<"RUN", ToJson([files |-> {<<m, Test(v.tid).files[m]>> : m \in DOMAIN Test(v.tid).files}, argv |-> Argv(v.tid),
                          old |-> There \ {Main}, names |-> Names(v.tid), name |-> OutName(v.tid), exit |-> v.exit,
                          out |-> IF v.exit = 0 THEN OutFile(v) ELSE <<>>])>>)
CmdReports == [][CmdReport(w')]_w
=============================================================================
