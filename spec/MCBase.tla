------------------------------- MODULE MCBase -------------------------------
(***************************************************************************)
(* Exhaustive models: the assembler of module Dasm run on every program of *)
(* a family.  A program's identity is a tuple of line numbers of an        *)
(* alphabet (or another value the family chooses); what the run should     *)
(* come to is computed from that identity alone, by rules as the manual    *)
(* states them, and compared when the run has ended.                       *)
(***************************************************************************)
EXTENDS Dasm, Json

CONSTANT MaxLen

Main == T("m.asm")
Opt0 == [main |-> Main, fmt |-> 1, errfmt |-> 0, strict |-> FALSE, maxfs |-> 1048576, maxp |-> 10, allp |-> FALSE,
         remove |-> FALSE, sort |-> 0, defs |-> <<>>, last |-> FALSE, symfile |-> FALSE,
         said |-> <<>>, bad |-> FALSE, cant |-> NoStr]
L(s) == Append(T(s), LF)
LN(s, k) == T(s) \o DecNat(k) \o <<LF>>
Program(lines) == [files |-> (Main :> lines), bins |-> EmptyMap, opt |-> Opt0, cmd |-> FALSE]

\* what the run wrote to memory, as a set of <<address, byte>>
RECURSIVE Image(_, _)
Image(log, i) == IF i > Len(log) THEN {}
                 ELSE LET b == Block(log[i]) IN {<<log[i].a + k - 1, b[k]>> : k \in 1..Len(b)} \union Image(log, i + 1)
\* the bytes in the order they were generated
RECURSIVE Emitted(_, _)
Emitted(log, i) == IF i > Len(log) THEN <<>> ELSE Block(log[i]) \o Emitted(log, i + 1)
Ended(v) == ~Running(v)

Steps(v) == Running(v) /\ Step(v)

(* what the model says the assembler does with a program, for the driver to try on the assembler: x = a program, *)
(* exit = its exit status, out = its output file                                                             *)
Tell(x, exit, out) ==
  PrintT(<<"RUN", ToJson([files |-> {<<m, x.files[m]>> : m \in DOMAIN x.files}, fmt |-> x.opt.fmt, strict |-> x.opt.strict,
                          dirs |-> [k \in DOMAIN x.opt.defs |-> x.opt.defs[k].val], exit |-> exit,
                          out |-> IF exit = 0 THEN out ELSE <<>>])>>)
Report(v) == Ended(v) => Tell(Test(v.tid), v.exit, OutFile(v))
Reports == [][Report(w')]_w
=============================================================================
