-------------------------------- MODULE Dasm --------------------------------
(***************************************************************************)
(* The assembler as a state machine: a line is fetched, then executed and  *)
(* listed; files, macros and passes end; the run ends with an exit status. *)
(***************************************************************************)
EXTENDS Formats

VARIABLE w

\* the action that executes a directive
DirClass ==
   (T("dc") :> "Data") @@ (T("byte") :> "Data") @@ (T("word") :> "Data") @@ (T("long") :> "Data") @@ (T("dv") :> "Data")
@@ (T("ds") :> "Space")
@@ (T("hex") :> "HexData")
@@ (T("org") :> "Org")
@@ (T("rorg") :> "Rorg")
@@ (T("rend") :> "Rend")
@@ (T("align") :> "Align")
@@ (T("seg") :> "Segment")
@@ (T("subroutine") :> "Subroutine")
@@ (T("equ") :> "Equ") @@ (T("=") :> "Equ")
@@ (T("eqm") :> "Eqm")
@@ (T("set") :> "Set")
@@ (T("setstr") :> "Setstr")
@@ (T("setsym") :> "Setsym")
@@ (T("echo") :> "Echo")
@@ (T("if") :> "If")
@@ (T("ifconst") :> "IfConst")
@@ (T("ifnconst") :> "IfNConst") @@ (T("ifndef") :> "IfNConst")
@@ (T("else") :> "Else")
@@ (T("endif") :> "Endif") @@ (T("eif") :> "Endif")
@@ (T("repeat") :> "Repeat")
@@ (T("repend") :> "Repend")
@@ (T("mac") :> "Macro") @@ (T("macro") :> "Macro")
@@ (T("endm") :> "Endm") @@ (T("mexit") :> "Endm")
@@ (T("end") :> "End")
@@ (T("include") :> "Include")
@@ (T("incbin") :> "Incbin")
@@ (T("incdir") :> "Incdir")
@@ (T("list") :> "Listing")
@@ (T("processor") :> "Processor")
@@ (T("err") :> "ErrOp")
@@ (T("trace") :> "TraceOp")

--------------------------------------------------------------------------
(* command line definitions, in order *)
RECURSIVE ApplyDefs(_, _)
ApplyDefs(v, i) ==
  IF i > Len(v.opt.defs) THEN v
  ELSE LET d == v.opt.defs[i]
           u == [v EXCEPT !.lab = d.name, !.arg = d.val]
       IN ApplyDefs(CASE d.k = "D" -> ExecSet(u) [] d.k = "M" -> ExecEqm(u) [] d.k = "I" -> ExecIncdir(u), i + 1)

StartPass(v) ==
  PushInclude([v EXCEPT !.cs = InitialSeg, !.loc = 0, !.lloc = 0, !.dol = 0, !.ldol = 0, !.scount = 0,
                        !.fclear = TRUE, !.ofill = ORGFILL, !.lm = TRUE, !.chk = W0, !.log = <<>>, !.oorg = W0,
                        !.ph = "fetch"],
              v.opt.main)
Boot(v0) == LET v == ApplyDefs([v0 EXCEPT !.sout = v0.opt.said], 1) IN
            IF v0.opt.bad THEN [v0 EXCEPT !.exit = E_CMD]
            ELSE IF v0.opt.cant # NoStr THEN [v EXCEPT !.exit = E_FILE]         \* the output or the list file cannot be opened
            ELSE IF Running(v) THEN StartPass(v) ELSE v

--------------------------------------------------------------------------
AtLine(v) == Running(v) /\ v.ph = "fetch" /\ Top(v).pos <= Len(SourceLines(v, Top(v)))
AtEnd(v)  == Running(v) /\ v.ph = "fetch" /\ Top(v).pos > Len(SourceLines(v, Top(v)))
Quiet(v)  == [v EXCEPT !.evs = <<>>]

\* read a line and split it into label, operation and operand
Fetched(v) ==
  LET f == Top(v)
      u == SetTop(Quiet(v), [f EXCEPT !.pos = @ + 1, !.ln = @ + 1])
      c == CleanLine(u, SourceLines(v, f)[f.pos], FALSE)
      p == Parse(c.w, c.t)
      k == Lookup(p.w, p.op)
  IN IF ~Running(p.w) THEN p.w
     ELSE [Counted(p.w, k) EXCEPT !.lab = p.lab, !.op = p.op, !.arg = p.arg, !.com = c.c, !.ph = "exec",
                                  !.kind = IF p.op = <<>> THEN <<"empty", <<>>>>
                                           ELSE IF k[1] = "dir" THEN <<DirClass[k[2]], k[2]>> ELSE k]

Exec(v, class) == Running(v) /\ v.ph = "exec" /\ v.kind[1] = class
On(v, class)   == Exec(v, class) /\ Active(v)
Skipped(v)     == ~Active(v) /\ (v.kind[1] \in {"empty", "none", "cpu", "mac"} \/ v.kind[2] \notin SkipToo)

\* the state after executing the fetched line
ExecCpu(v, m)  == CASE m.kind = "mne" -> ExecMne(v, m)
                    [] m.kind = "dc" -> ExecDc(v, m.name)
                    [] m.kind = "ds" -> ExecDs(v)
                    [] OTHER -> ExecF8(v, m)
ExecLine(v) ==
  IF Skipped(v) THEN v ELSE
  CASE v.kind[1] = "empty" -> Lab(v)
    [] v.kind[1] = "none" -> Err(v, E_UNKMNE, FALSE, v.op)
    [] v.kind[1] = "cpu" -> ExecCpu(v, CpuTables[v.proc][v.kind[2]])
    [] v.kind[1] = "mac" -> ExecMacCall(v, v.kind[2])
    [] v.kind[1] = "Data" -> ExecDc(v, v.kind[2])
    [] v.kind[1] = "Space" -> ExecDs(v)
    [] v.kind[1] = "HexData" -> ExecHex(v)
    [] v.kind[1] = "Org" -> ExecOrg(v)
    [] v.kind[1] = "Rorg" -> ExecRorg(v)
    [] v.kind[1] = "Rend" -> ExecRend(v)
    [] v.kind[1] = "Align" -> ExecAlign(v)
    [] v.kind[1] = "Segment" -> ExecSeg(v)
    [] v.kind[1] = "Subroutine" -> ExecSubroutine(v)
    [] v.kind[1] = "Equ" -> ExecEqu(v)
    [] v.kind[1] = "Eqm" -> ExecEqm(v)
    [] v.kind[1] = "Set" -> ExecSet(v)
    [] v.kind[1] = "Setstr" -> ExecSetstr(v)
    [] v.kind[1] = "Setsym" -> ExecSetsym(v)
    [] v.kind[1] = "Echo" -> ExecEcho(v)
    [] v.kind[1] = "If" -> ExecIf(v)
    [] v.kind[1] = "IfConst" -> ExecIfConst(v, TRUE)
    [] v.kind[1] = "IfNConst" -> ExecIfConst(v, FALSE)
    [] v.kind[1] = "Else" -> ExecElse(v)
    [] v.kind[1] = "Endif" -> ExecEndif(v)
    [] v.kind[1] = "Repeat" -> ExecRepeat(v)
    [] v.kind[1] = "Repend" -> ExecRepend(v)
    [] v.kind[1] = "Macro" -> ExecMacro(v)
    [] v.kind[1] = "Endm" -> LeaveMacro(v)
    [] v.kind[1] = "End" -> ExecEnd(v)
    [] v.kind[1] = "Include" -> ExecInclude(v)
    [] v.kind[1] = "Incbin" -> ExecIncbin(v)
    [] v.kind[1] = "Incdir" -> ExecIncdir(v)
    [] v.kind[1] = "Listing" -> ExecList(v)
    [] v.kind[1] = "Processor" -> ExecProcessor(v)
    [] v.kind[1] = "ErrOp" -> Err(Lab(v), E_ERR, TRUE, <<>>)
    [] v.kind[1] = "TraceOp" -> v
Executed(v) == LET u == ExecLine(Quiet(v)) IN [ListLine(u, u.com) EXCEPT !.ph = "fetch"]

LeaveFile(v) == LET u == [PopFrame(Quiet(v)) EXCEPT !.ilev = @ - 1] IN
                IF u.fr # <<>> THEN Ev(u, T("------- FILE ") \o Top(u).name) ELSE [u EXCEPT !.ph = "passend"]

Exit(v, code) == [v EXCEPT !.exit = code, !.evs = <<>>]
NoProgress(v) == v.redo = v.oredo /\ v.why = v.owhy /\ v.reval = v.oeval
NextPass(v) ==
  [v EXCEPT !.oredo = v.redo, !.owhy = v.why, !.oeval = v.reval, !.redo = 0, !.why = {}, !.reval = 0,
            !.ifprev = v.ifnow, !.ifnow = FALSE, !.pass = @ + 1, !.errs = <<>>, !.msgs = <<>>, !.stop = FALSE,
            !.syms = [m \in DOMAIN @ |-> [@[m] EXCEPT !.ref = FALSE]],
            !.segs = [m \in DOMAIN @ |-> [@[m] EXCEPT !.unk = TRUE, !.ron = FALSE, !.runk = TRUE]]]
LeavePass(v) ==
          IF v.ml THEN Exit(v, E_COMEND)
          ELSE IF v.redo > 0
          THEN IF ~v.opt.allp /\ NoProgress(v) THEN Exit(v, E_NOTRES)
               ELSE IF v.pass + 1 > v.opt.maxp THEN Exit([v EXCEPT !.pass = @ + 1], E_PASSES)
               ELSE StartPass(NextPass(Quiet(v)))
          ELSE IF v.nmd # v.nmc THEN Exit(v, E_ENDM)
          ELSE Exit(v, IF v.stop THEN E_NONABORT ELSE 0)

\* the next state of a running assembly: the machine is deterministic
After(v) == CASE v.ph = "boot" -> Boot(v)
              [] v.ph = "exec" -> Executed(v)
              [] v.ph = "passend" -> LeavePass(v)
              [] AtLine(v) -> Fetched(v)
              [] OTHER -> IF Top(v).mac THEN LeaveMacro(Quiet(v)) ELSE LeaveFile(v)

--------------------------------------------------------------------------
(* the actions; each takes the state as an operand because TLC's start-up *)
(* cost grows with the number of operators without operands               *)
Start(v)    == Running(v) /\ v.ph = "boot" /\ w' = After(v)       \* define the command line's symbols, begin pass 1
Fetch(v)    == AtLine(v) /\ w' = After(v)                         \* read and split a line
Skip(v)     == Running(v) /\ v.ph = "exec" /\ Skipped(v) /\ w' = After(v)
LabelOnly(v)   == On(v, "empty") /\ w' = After(v)
Unknown(v)     == On(v, "none") /\ w' = After(v)
Instruction(v) == On(v, "cpu") /\ w' = After(v)
MacroCall(v)   == On(v, "mac") /\ w' = After(v)
Data(v)        == On(v, "Data") /\ w' = After(v)
Space(v)       == On(v, "Space") /\ w' = After(v)
HexData(v)     == On(v, "HexData") /\ w' = After(v)
Org(v)         == On(v, "Org") /\ w' = After(v)
Rorg(v)        == On(v, "Rorg") /\ w' = After(v)
Rend(v)        == On(v, "Rend") /\ w' = After(v)
Align(v)       == On(v, "Align") /\ w' = After(v)
Segment(v)     == On(v, "Segment") /\ w' = After(v)
Subroutine(v)  == On(v, "Subroutine") /\ w' = After(v)
Assign(v)      == (On(v, "Equ") \/ On(v, "Eqm") \/ On(v, "Set") \/ On(v, "Setstr") \/ On(v, "Setsym")) /\ w' = After(v)
Echo(v)        == On(v, "Echo") /\ w' = After(v)
If(v)          == (Exec(v, "If") \/ Exec(v, "IfConst") \/ Exec(v, "IfNConst")) /\ w' = After(v)
Else(v)        == Exec(v, "Else") /\ w' = After(v)
Endif(v)       == Exec(v, "Endif") /\ w' = After(v)
Repeat(v)      == Exec(v, "Repeat") /\ w' = After(v)
Repend(v)      == Exec(v, "Repend") /\ w' = After(v)
Macro(v)       == Exec(v, "Macro") /\ w' = After(v)
Endm(v)        == On(v, "Endm") /\ w' = After(v)
Files(v)       == (On(v, "End") \/ On(v, "Include") \/ On(v, "Incbin") \/ On(v, "Incdir")) /\ w' = After(v)
Control(v)     == (On(v, "Listing") \/ On(v, "Processor") \/ On(v, "ErrOp") \/ On(v, "TraceOp")) /\ w' = After(v)
EndMacro(v) == AtEnd(v) /\ Top(v).mac /\ w' = After(v)
EndFile(v)  == AtEnd(v) /\ ~Top(v).mac /\ w' = After(v)
EndPass(v)  == Running(v) /\ v.ph = "passend" /\ w' = After(v)

Step(v) == \/ Start(v) \/ Fetch(v) \/ Skip(v) \/ LabelOnly(v) \/ Unknown(v) \/ Instruction(v)
           \/ MacroCall(v) \/ Data(v) \/ Space(v) \/ HexData(v) \/ Org(v) \/ Rorg(v) \/ Rend(v) \/ Align(v)
           \/ Segment(v) \/ Subroutine(v) \/ Assign(v) \/ Echo(v) \/ If(v) \/ Else(v) \/ Endif(v)
           \/ Repeat(v) \/ Repend(v) \/ Macro(v) \/ Endm(v) \/ Files(v) \/ Control(v)
           \/ EndMacro(v) \/ EndFile(v) \/ EndPass(v)

\* the whole run as one value
RECURSIVE Run(_)
Run(v) == IF Running(v) THEN Run(After(v)) ELSE v
Result(tid) == Run(State0(tid))
=============================================================================
