--------------------------------- MODULE Hex --------------------------------
(***************************************************************************)
(* Conformance of ftohex: the records it wrote are read one at a time and  *)
(* must hand out the bytes of the input, in order and each exactly once,   *)
(* at the addresses the input format gives them.  How the bytes are cut    *)
(* into records of up to 16 is left open, and so is the case of the digits.*)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Tests
VARIABLES t,     \* the run being checked
          i,     \* records read
          s      \* [h, p: current hunk of the input, bytes of it handed out,
                 \*  ph: "data", "end" or a difference]
vars == <<t, i, s>>

Loaded == ndJsonDeserialize(IOEnv.TESTS)
TestData == Loaded

\* the input as hunks [a: address, d: bytes]
Word(f, k) == f[k] + 256 * f[k + 1]
RECURSIVE Hunks(_, _)
Hunks(f, k) == IF k + 3 > Len(f) THEN <<>>
               ELSE LET len == Word(f, k + 2)
                    IN <<[a |-> Word(f, k), d |-> SubSeq(f, k + 4, k + 3 + len)]>> \o Hunks(f, k + 4 + len)
Input(r) == CASE r.fmt = 1 -> IF Len(r.in) < 3 THEN <<>> ELSE <<[a |-> Word(r.in, 1), d |-> SubSeq(r.in, 3, Len(r.in))]>>
              [] r.fmt = 2 -> Hunks(r.in, 1)
              [] r.fmt = 3 -> <<[a |-> 0, d |-> r.in]>>
Inputs == [k \in DOMAIN Loaded |-> Input(Loaded[k])]

Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
\* a line ":hh..hh" as bytes, or <<>> if it is not one
Bytes(l) ==
  IF Len(l) >= 11 /\ Len(l) % 2 = 1 /\ l[1] = 58 /\ \A k \in 2..Len(l) : Digit(l[k]) >= 0
  THEN [k \in 1..((Len(l) - 1) \div 2) |-> 16 * Digit(l[2 * k]) + Digit(l[2 * k + 1])]
  ELSE <<>>
RECURSIVE Sum(_, _)
Sum(b, k) == IF k > Len(b) THEN 0 ELSE b[k] + Sum(b, k + 1)
WellFormed(b) == b # <<>> /\ Len(b) = b[1] + 5 /\ Sum(b, 1) % 256 = 0
Data(b) == SubSeq(b, 5, Len(b) - 1)
Addr(b) == 256 * b[2] + b[3]

\* position after skipping hunks that are used up
RECURSIVE Skip(_, _, _)
Skip(hs, x, q) == IF x <= Len(hs) /\ q >= Len(hs[x].d) THEN Skip(hs, x + 1, 0) ELSE <<x, q>>
\* position after handing out d from address a on, or <<>> if the input disagrees
RECURSIVE Deliver(_, _, _, _, _)
Deliver(hs, x, q, a, d) ==
  IF d = <<>> THEN <<x, q>>
  ELSE LET z == Skip(hs, x, q) IN
       IF z[1] > Len(hs) THEN <<>>
       ELSE LET n == IF Len(d) < Len(hs[z[1]].d) - z[2] THEN Len(d) ELSE Len(hs[z[1]].d) - z[2] IN
            IF (hs[z[1]].a + z[2]) % 65536 # a % 65536 \/ SubSeq(hs[z[1]].d, z[2] + 1, z[2] + n) # SubSeq(d, 1, n) THEN <<>>
            ELSE Deliver(hs, z[1], z[2] + n, a + n, SubSeq(d, n + 1, Len(d)))

\* one record: [h, p, ph]
Read(hs, x, q, l) ==
  LET b == Bytes(l)
      to == Deliver(hs, x, q, Addr(b), Data(b))
      no(why) == [h |-> x, p |-> q, ph |-> why]
  IN IF ~WellFormed(b) THEN no("malformed record")
     ELSE IF b[4] = 1
     THEN IF b[1] # 0 THEN no("malformed end record")
          ELSE IF Skip(hs, x, q)[1] <= Len(hs) THEN no("bytes missing") ELSE no("end")
     ELSE IF b[4] # 0 THEN no("record type")
     ELSE IF b[1] > 16 THEN no("record too long")
     ELSE IF to = <<>> THEN no("wrong data or address")
     ELSE [h |-> to[1], p |-> to[2], ph |-> "data"]

Bad(o, k, ph_) == (IF o.exit # 0 THEN {<<"hex", "exit status", o.exit>>} ELSE {})
                  \union (IF ph_ = "end" THEN IF k < Len(o.lines) THEN {<<"hex", "text after the end record", k>>} ELSE {}
                          ELSE IF ph_ = "data" THEN {<<"hex", "no end record", k>>} ELSE {<<"hex", ph_, k>>})
Over(o, k, ph_) == ph_ # "data" \/ k = Len(o.lines)
Report(o, k, ph_) == ~Over(o, k, ph_) \/ PrintT(<<"RESULT", t, 0, 0, k, ToJson(Bad(o, k, ph_)), ToJson({"hex"})>>)

Init == /\ t \in DOMAIN Tests /\ i = 0 /\ s = [h |-> 1, p |-> 0, ph |-> "data"]
        /\ (Len(Tests[t].lines) > 0 \/ Report(Tests[t], 0, "data"))
ReadRecord(o) == /\ ~Over(o, i, s.ph)
                 /\ i' = i + 1
                 /\ t' = t
                 /\ s' = Read(Inputs[t], s.h, s.p, o.lines[i + 1])
                 /\ Report(o, i', s'.ph)
Next == ReadRecord(Tests[t])
Spec == Init /\ [][Next]_vars

InBounds == s.h <= Len(Inputs[t]) + 1 /\ (s.h <= Len(Inputs[t]) => s.p <= Len(Inputs[t][s.h].d))
=============================================================================
