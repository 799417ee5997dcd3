------------------------------- MODULE Reports ------------------------------
(***************************************************************************)
(* What a run says: its list file, standard output and symbol file.        *)
(***************************************************************************)
EXTENDS Cmd

\* lines are compared with tabs expanded and runs of blanks after column 43 collapsed
RECURSIVE Collapse(_, _, _)
Collapse(s, k, acc) ==
  LET j == FindIn(s, k, {SP}) IN
  IF j > Len(s) THEN acc \o From(s, k)
  ELSE Collapse(s, SkipIn(s, j, {SP}), acc \o SubSeq(s, k, j))
Norm(s) == LET e == Expand(s) IN RTrim(Collapse(e, 44, Take(e, 43)), {SP})
RECURSIVE SplitLF(_)
SplitLF(s) == LET k == Find1(s, LF) IN IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o SplitLF(From(s, k + 1))
RECURSIVE Lines(_, _)
Lines(evs, k) == IF k > Len(evs) THEN <<>>
                 ELSE (IF Find1(evs[k], LF) = 0 THEN <<Norm(evs[k])>>
                       ELSE LET q == SplitLF(evs[k]) IN [x \in 1..Len(q) |-> Norm(q[x])]) \o Lines(evs, k + 1)

--------------------------------------------------------------------------
(* what standard output and the symbol file should be *)
HasList(v) == ~Test(v.tid).cmd \/ v.opt.list # NoStr           \* messages on aborting go to the list file if there is one
StdOut(v) ==
  v.sout \o
  (CASE v.exit = 0 -> v.msgs \o <<<<>>, T("Complete. (0)")>>
    [] v.exit = E_NONABORT -> v.errs \o <<<<>>, T("Unrecoverable error(s) in pass, aborting assembly!"), T("Complete. (5)")>>
    [] v.exit = E_NOTRES -> v.msgs \o <<<<>>>> \o v.errs \o <<<<>>, T("Fatal assembly error: Source is not resolvable.")>>
    [] v.exit = E_COMEND -> v.msgs \o <<<<>>>> \o v.errs \o <<<<>>, T("Fatal assembly error: Multi-line comment not closed.")>>
    [] v.exit = E_ENDM -> (IF v.stop THEN v.errs \o <<<<>>, T("Unrecoverable error(s) in pass, aborting assembly!")>>
                           ELSE v.msgs \o <<<<>>>>)
                          \o <<T("premature end of file, macros opened:") \o DecNat(v.nmd) \o T("  closed:")
                               \o DecNat(v.nmc) \o T("Aborting assembly")>>
    [] OTHER -> v.msgs \o (IF v.ph = "boot" \/ ~HasList(v) THEN <<<<>>, T("Aborting assembly")>> ELSE <<<<>>>>) \o v.errs \o <<<<>>>>)
  \o (IF Test(v.tid).cmd /\ Writes(v) /\ v.opt.sym # NoStr /\ ~v.opt.symfile
      THEN <<T("Warning: Unable to open Symbol Dump file '") \o v.opt.sym \o T("'")>> ELSE <<>>)

SymLine(m, s) ==
  PadR(m, 24) \o <<SP>> \o SFlags(w, s.v, s.u, s.s # NoStr, s.mac, s.mas, s.set)
  \o (IF s.s # NoStr THEN <<SP, 34>> \o s.s \o <<34>> ELSE <<>>)
SymHead(v) == CASE v.opt.sort = 0 -> T("--- Symbol List (sorted by symbol)")
                [] v.opt.sort = 1 -> T("--- Symbol List (sorted by address)")
                [] v.opt.sort = 2 -> T("--- Symbol List (sorted by order)")
SymFoot == T("--- End of Symbol List.")

UnresLines(v) == {Norm(PadR(m, 24) \o <<SP>> \o SFlags(v, v.syms[m].v, TRUE, v.syms[m].s # NoStr, v.syms[m].mac, v.syms[m].mas, v.syms[m].set)) :
                  m \in {x \in DOMAIN v.syms : v.syms[x].u}}
=============================================================================
