#!/usr/bin/env python3
"""Can the models fail?  Each change to the specification below is made in a copy of it, and the models named must then
find an error: the theorem does not hold any more, or dasm does something else with a program than the model says.
teeth.py [NAME...]; prints one line per change and model, exit status 1 if a model noticed nothing."""
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dasmlib
import models

CHANGES = [
    # name, module, old text, new text, models
    ("no-if-redo", "Ops", "p == PushIf(Redo(r.w, R_IF), FALSE)", "p == PushIf(r.w, FALSE)", "passes"),
    ("no-ds-redo", "Ops", "l[1].u THEN Redo(r.w, R_DS)", "l[1].u THEN r.w", "passes"),
    ("give-up-early", "Dasm", "NoProgress(v) == v.redo = v.oredo /\\ v.why = v.owhy /\\ v.reval = v.oeval", "NoProgress(v) == v.redo = v.oredo", "passes"),
    ("one-pass-too-few", "Dasm", "IF v.redo > 0\n", "IF v.redo > 1\n", "passes"),
    ("equ-mismatch", "Ops", "ELSE IF d.s.v # x.v THEN Redo(", "ELSE IF FALSE THEN Redo(", "passes"),
    ("keep-segment", "Dasm", "PushInclude([v EXCEPT !.cs = InitialSeg,", "PushInclude([v EXCEPT ", "passes"),
    ("ifconst-inverted", "Ops", "(~r.l[1].u) = want", "r.l[1].u = want", "conditions"),
    ("repeat-once-more", "Ops", "rp.cnt # W1\n", "rp.cnt # W0\n", "loops"),
    ("repend-any", "Ops", "ELSE ExecEndif([w EXCEPT !.reps = SubSeq(@, 1, k - 1)])", "ELSE [w EXCEPT !.reps = SubSeq(@, 1, k - 1)]", "loops"),
    ("macro-scope", "Ops", "!.mlev = @ - 1, !.loc = f.sloc, ", "!.mlev = @ - 1, ", "macros scopes"),
    ("macro-args", "Ops", "MacArgs(w.arg, 1, <<>>), sloc", "MacArgs(w.arg, 2, <<>>), sloc", "macros"),
    ("open-ifs", "Ops", "[w EXCEPT !.ifs = DropIfs(@, f), ", "[w EXCEPT ", "macros"),
    ("end-all", "Ops", "ExecEnd(w0) == LET w == LeaveMacros(w0) IN SetTop(w, [Top(w) EXCEPT !.pos = Len(FileLines(w, Top(w))) + 1])",
     "ExecEnd(w0) == LET w == LeaveMacros(w0) IN [SetTop(w, [Top(w) EXCEPT !.pos = Len(FileLines(w, Top(w))) + 1]) EXCEPT !.fr[1].pos = Len(FileLines(w, w.fr[1])) + 1]", "files"),
    ("dirs-backwards", "Ops", "InDirs(w.idirs, 1, name, have)", "InDirs([k \\in DOMAIN w.idirs |-> w.idirs[Len(w.idirs) + 1 - k]], 1, name, have)", "files"),
    ("rorg-moves-code", "Ops", "[s EXCEPT !.rorg = x.v, !.runk = x.u]", "[s EXCEPT !.rorg = x.v, !.runk = x.u, !.org = x.v]", "segments"),
    ("rend-keeps", "Ops", "SetSeg(w, [Seg(w) EXCEPT !.ron = FALSE])", "w", "segments"),
    ("align-origin", "Ops", "Mod(PC(w), x.v)", "Mod(Seg(w).org, x.v)", "segments"),
    ("subroutine-scope", "Ops", "!.lloc = @ + 1, !.loc = w.lloc + 1])\n\n----", "!.lloc = @ + 1, !.loc = w.loc])\n\n----", "scopes"),
    ("word-order", "Ops", "w.mnext = AM_SWAP -> EndianBytes(~w.msb, v, 2)", "w.mnext = AM_SWAP -> EndianBytes(w.msb, v, 2)", "data"),
    ("byte-range", "Ops", "Lt(v, N(-255)) \\/ Lt(N(255), v)\n", "Lt(v, N(-256)) \\/ Lt(N(255), v)\n", "data"),
    ("strict-word", "Ops", "IF w.opt.strict /\\ (Lt(v, N(-65535))", "IF (Lt(v, N(-65535))", "data"),
    ("branch-limit", "Instr", "Lt(N(127), d)", "Lt(N(128), d)", "branches"),
    ("branch-base", "Instr", "Displacement(B.w, l[B.k], Len(B.b) + 1)", "Displacement(B.w, l[B.k], 2)", "branches"),
    ("widen", "Instr", "m = AM_BYTEADRY -> AM_WORDADRY", "m = AM_BYTEADRY -> AM_IMP", "instructions"),
    ("zero-index", "Instr", "IF x.v = W0 THEN 0 ELSE 1", "1", "instructions"),
    ("too-wide", "Instr", "ELSE [w |-> Err(w, E_LT100, FALSE, m.name \\o <<SP>> \\o w.arg), am |-> am]", "ELSE [w |-> w, am |-> am]", "instructions"),
    ("opcode", "Isa", "<<AM_INDBYTEX, 97>>", "<<AM_INDBYTEX, 99>>", "opcodes"),
    ("prefix", "Isa", "<<AM_BYTEADRY, 6254>>", "<<AM_BYTEADRY, 6510>>", "opcodes"),
    ("hex-checksum", "Hex", "Sum(b, 1) % 256 = 0", "TRUE", "hex"),
    ("hex-missing", "Hex", "IF Skip(hs, x, q)[1] <= Len(hs) THEN no(\"bytes missing\") ELSE no(\"end\")", "no(\"end\")", "hex"),
    ("hex-address", "Hex", "(hs[z[1]].a + z[2]) % 65536 # a % 65536", "(hs[z[1]].a + z[2]) % 256 # a % 256", "hex"),
    ("priority", "Expr", "mod |-> 20, add |-> 19", "mod |-> 20, add |-> 20", "expressions"),
    ("associativity", "Expr", "pri <= e.o[Len(e.o)][2]", "pri < e.o[Len(e.o)][2]", "expressions+"),
    ("division-sign", "W64", "Canon(IF IsNeg(a) = IsNeg(b) THEN q ELSE NegB(q))", "Canon(q)", "arithmetic"),
    ("shift-sign", "W64", "sg == IF IsNeg(a) THEN 255 ELSE 0", "sg == 0", "arithmetic"),
    ("compare-sign", "W64", "ELSE IF IsNeg(a) # IsNeg(b) THEN IsNeg(a)", "ELSE IF FALSE THEN IsNeg(a)", "arithmetic"),
    ("comment-quote", "Lex", "CleanStop == {59, CR, LF, TAB, 39, 34, 123}", "CleanStop == {59, CR, LF, TAB, 39, 123}", "lines"),
    ("tab", "Lex", "c = TAB -> CleanLoop(w, Append(d, SP), r, dis, n)", "c = TAB -> CleanLoop(w, Append(d, TAB), r, dis, n)", "lines"),
    ("refused-anyway", "Cmd", "IF n \\in 1..3 THEN [c EXCEPT !.fmt = n]", "IF n \\in 0..3 THEN [c EXCEPT !.fmt = n]", "commands"),
    ("no-default", "Cmd", "THEN T(\"0\") ELSE From(s, Len(n) + 2)", "THEN T(\"1\") ELSE From(s, Len(n) + 2)", "commands"),
    ("remove-always", "Cmd", "v.exit # 0 /\\ v.opt.remove THEN", "v.exit # 0 THEN", "commands"),
    ("keep-removed", "Cmd", "v.exit # 0 /\\ v.opt.remove THEN", "FALSE THEN", "commands"),
    ("echo-superseded", "Dasm", "!.errs = <<>>, !.msgs = <<>>, !.stop", "!.errs = <<>>, !.stop", "reports"),
    ("sum-from-before", "Dasm", "!.lm = TRUE, !.chk = W0, ", "!.lm = TRUE, ", "reports"),
    ("list-off", "Ops", "IF ~Running(w) \\/ ~w.lm THEN w", "IF ~Running(w) THEN w", "reports"),
    ("text-sort", "MCReport", "LexLe(Lower(a), Lower(b), 1)", "LexLe(a, b, 1)", "reports"),
    ("comment-order", "Lex", "IF ms # 0 /\\ (sc = 0 \\/ ms < sc)", "IF ms # 0", "lines"),
]


def main():
    want = sys.argv[1:]
    missed = 0
    built = tempfile.mkdtemp(prefix="vp-teeth-")
    dasm = dasmlib.build(built)[0]
    for name, mod, old, new, ms in CHANGES:
        if want and name not in want:
            continue
        scratch = tempfile.mkdtemp(prefix="vp-teeth-")
        try:
            dasmlib.SPEC = os.path.join(scratch, "spec")
            shutil.copytree(os.path.join(dasmlib.VERIF, "spec"), dasmlib.SPEC)
            path = os.path.join(dasmlib.SPEC, mod + ".tla")
            text = open(path).read()
            if old not in text:
                print("%s: not found in %s" % (name, mod))
                missed += 1
                continue
            open(path, "w").write(text.replace(old, new))
            for m in ms.split():
                tier = "thorough" if m[-1] == "+" else "quick"
                m = m.rstrip("+")
                try:
                    r = models.one(m, tier, scratch, dasm, 600, 4)
                    said = "%d programs disagree" % r[0]["disagreements"] if r[1] else "NOT NOTICED"
                    missed += not r[1]
                except dasmlib.MachineryError as e:
                    said = str(e).split("\n")[0][:150]
                print("%-18s %-13s %s" % (name, m, said), flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    shutil.rmtree(built, ignore_errors=True)
    return 1 if missed else 0


if __name__ == "__main__":
    sys.exit(main())
