------------------------------ MODULE MCPasses ------------------------------
(***************************************************************************)
(* C01, C02, C03: forward references, conditions and sizes that depend on  *)
(* labels.  A run that ends well is a fixed point: one more pass would     *)
(* generate the same bytes and symbols.  Every run ends.                   *)
(***************************************************************************)
EXTENDS MCBase

Alphabet == << L(" dc.w a"), L("a dc 1"), L(" ds b&1"), L("b"), L("a equ b+1"), L("b equ 2"), L(" if a-9"), L(" endif"),
               L(" org b+8"), L(" rorg a"), L(" align b"), L(" repeat b&1"), L(" repend"), L("x set a"), L(" dc x"), L("c equ *") >>
K == Len(Alphabet)
\* every program ends in another segment than it begins in
MCTest(p) == Program(<<L(" org 8")>> \o [i \in 1..Len(p) |-> Alphabet[p[i]]] \o <<L(" seg.u z"), L(" org 3")>>)

\* a is defined by a label or by EQU, and so is b
OneWay(p) == LET D(S) == Cardinality({i \in 1..Len(p) : p[i] \in S}) IN D({2, 5}) <= 1 /\ D({4, 6}) <= 1
Init == \E m \in 0..MaxLen : \E p \in [1..m -> 1..K] : OneWay(p) /\ w = State0(p)
Next == <<Steps(w)>>_w
Spec == Init /\ [][Next]_w /\ WF_w(Next)

Known(v) == {m \in DOMAIN v.syms : ~v.syms[m].u}
\* one more pass, from where the last one left off
Again(v) == Run(StartPass([NextPass(Quiet(v)) EXCEPT !.exit = -1, !.opt.allp = TRUE]))

FixedPointOf(v, z) == z.exit = 0 /\ OutFile(z) = OutFile(v) 
                      /\ \A m \in Known(v) : m \in Known(z) /\ z.syms[m].v = v.syms[m].v
FixedPoint(v) == v.exit = 0 => FixedPointOf(v, Again(v))
\* what was never defined has no influence on the result
Poisoned(v) == [v EXCEPT !.syms = [m \in DOMAIN @ |-> IF @[m].u THEN [@[m] EXCEPT !.v = N(77)] ELSE @[m]]]
Independent(v) == v.exit = 0 => LET z == Again(Poisoned(v)) IN z.exit = 0 /\ OutFile(z) = OutFile(v)
NoErrors(v) == v.exit = 0 => ~v.stop /\ v.redo = 0
Limit(v) == v.pass <= v.opt.maxp + 1 /\ (Running(v) => v.pass <= v.opt.maxp)
Depth(v) == Len(v.ifs) >= 1 /\ v.mlev >= 0 /\ v.ilev >= 0
\* a pass that settled something is followed by another one
GaveUp(v) == v.exit = E_NOTRES => v.redo > 0 /\ v.redo = v.oredo /\ v.why = v.owhy
\* giving up loses nothing: more passes would not succeed
InVain(v) == v.exit = E_NOTRES => Run([State0(v.tid) EXCEPT !.opt.allp = TRUE]).exit # 0
Check(v) == InVain(v) /\ FixedPoint(v) /\ Independent(v) /\ NoErrors(v) /\ Limit(v) /\ Depth(v) /\ GaveUp(v)
Theorem == [][Check(w')]_w
Terminates == <>Ended(w)
=============================================================================
