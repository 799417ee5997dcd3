-------------------------------- MODULE Emit --------------------------------
(***************************************************************************)
(* Emission of bytes: the current segment's origin advances, and in a pass *)
(* that has no reason to be repeated the bytes are logged for the output   *)
(* file.  A log entry [a, n, d, f] is n bytes at address a, the pattern d   *)
(* repeated; f is the gap fill value in force.                             *)
(***************************************************************************)
EXTENDS Lex, Isa

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)

\* the bytes the listing shows are those last written to the line buffer
GenPut(w, bytes) == [w EXCEPT !.gen = [i \in 1..4 |-> IF i <= Len(bytes) /\ bytes[i] >= 0 THEN bytes[i] ELSE w.gen[i]]]

LogAdd(log, a, n, d, f) ==
  LET k == Len(log)
      l == log[k]
  IN IF k > 0 /\ l.a + l.n = a /\ l.f = f /\ l.n = Len(l.d) /\ n = Len(d) /\ Len(l.d) < 64
     THEN [log EXCEPT ![k].n = @ + n, ![k].d = @ \o d]
     ELSE IF k > 0 /\ l.a + l.n = a /\ l.f = f /\ l.d = d /\ n > Len(d) /\ l.n % Len(d) = 0
     THEN [log EXCEPT ![k].n = @ + n]
     ELSE Append(log, [a |-> a, n |-> n, d |-> d, f |-> f])

TooBig(w, org) == T("code segment growing larger (") \o DecW(org) \o T(") than max. allowed file size (")
                  \o DecNat(w.opt.maxfs) \o T(")") \o <<LF>>

\* emit n bytes, the pattern d repeated
Generate(w, n, d) ==
  IF ~Running(w) THEN w ELSE
  LET sg   == Seg(w)
      real == w.redo = 0 /\ ~sg.bss
      w1   == IF real /\ n > 0
              THEN [w EXCEPT !.chk = Add(@, Mul(N(SumSeq(d, 1)), N(n \div Len(d))))] ELSE w
      oorg == IF w.fclear THEN sg.org ELSE w.oorg
      w2   == IF ~real THEN w1
              ELSE IF w.opt.fmt # 2 /\ ULt(sg.org, oorg)
              THEN Err(Out([w1 EXCEPT !.fclear = FALSE, !.oorg = oorg],
                           T("segment: ") \o w.cs \o <<SP>> \o SFlags(w, sg.org, FALSE, FALSE, sg.ron, FALSE, FALSE)
                           \o T("  vs current org: ") \o HexW(oorg, 4)), E_REVERSE, TRUE, <<>>)
              ELSE [w1 EXCEPT !.fclear = FALSE, !.oorg = Inc(sg.org, n),
                              !.log = IF Small(sg.org) THEN LogAdd(@, IntOf(sg.org), n, d, w.ofill) ELSE @]
      org2 == Inc(sg.org, n)
      w3   == SetSeg(w2, [sg EXCEPT !.org = org2, !.rorg = IF sg.ron THEN Inc(@, n) ELSE @])
  IN IF real /\ sg.unk THEN Redo([w1 EXCEPT !.fclear = FALSE], R_OBSCURE)
     ELSE IF ~Running(w2) THEN w2
     ELSE IF ULt(N(w.opt.maxfs), org2) THEN Err(w3, E_DEEP, TRUE, TooBig(w, org2))
     ELSE w3

\* emit these bytes (a byte -1 is one whose value is not known in this pass)
EmitBytes(w, bytes) ==
  LET b == [i \in 1..Len(bytes) |-> IF bytes[i] < 0 THEN 0 ELSE bytes[i]] IN
  Generate([GenPut(w, bytes) EXCEPT !.glen = Len(bytes)], Len(b), b)

RECURSIVE FillLoop(_, _, _)
CHUNK == 4096
FillLoop(w, n, d) ==
  IF ~Running(w) THEN w
  ELSE IF Lt(N(CHUNK), n) THEN FillLoop(Generate(w, CHUNK, d), Inc(n, -CHUNK), d)
  ELSE Generate([w EXCEPT !.glen = IntOf(n)], IntOf(n), d)

EndianBytes(msb, v, size) == [i \in 1..size |-> ByteN(v, IF msb THEN size - i ELSE i - 1)]

\* `entries' items of `size' bytes with the value `fill'
GenFill(w, fill, entries, size) ==
  IF entries = W0 THEN w
  ELSE IF IsNeg(entries) THEN Err(w, E_REVERSE, TRUE, <<>>)
  ELSE LET d == EndianBytes(w.msb, fill, size)
           g == [i \in 1..4 |-> d[((i - 1) % size) + 1]]
       IN FillLoop([w EXCEPT !.gen = g, !.glen = CHUNK], Mul(entries, N(size)), d)
=============================================================================
