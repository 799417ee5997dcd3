------------------------------- MODULE Formats ------------------------------
(***************************************************************************)
(* Output files from the log of emitted blocks, and the Intel HEX text     *)
(* ftohex makes of them.                                                   *)
(***************************************************************************)
EXTENDS Ops

LoHi(n) == <<n % 256, (n \div 256) % 256>>
Block(e) == IF e.n = Len(e.d) THEN e.d ELSE [i \in 1..e.n |-> e.d[((i - 1) % Len(e.d)) + 1]]

\* formats 1 and 3: gaps are filled with the value in force
RECURSIVE Filled(_, _, _)
Filled(log, i, at) ==
  IF i > Len(log) THEN <<>>
  ELSE LET e == log[i] IN
       [k \in 1..(e.a - at) |-> e.f] \o Block(e) \o Filled(log, i + 1, e.a + e.n)

\* format 2: hunks <<address, length, bytes>>; a new one at every jump of the origin
RECURSIVE Hunks(_, _, _, _, _)
Hunks(log, i, start, at, acc) ==
  IF i > Len(log) THEN LoHi(start) \o LoHi(Len(acc)) \o acc
  ELSE LET e == log[i] IN
       IF e.a = at THEN Hunks(log, i + 1, start, at + e.n, acc \o Block(e))
       ELSE LoHi(start) \o LoHi(Len(acc)) \o acc \o Hunks(log, i + 1, e.a, e.a + e.n, Block(e))

OutFile(w) ==
  CASE w.log = <<>> -> <<>>
    [] w.opt.fmt = 1 -> LoHi(w.log[1].a) \o Filled(w.log, 1, w.log[1].a)
    [] w.opt.fmt = 2 -> Hunks(w.log, 1, w.log[1].a, w.log[1].a, <<>>)
    [] w.opt.fmt = 3 -> Filled(w.log, 1, w.log[1].a)

--------------------------------------------------------------------------
(* ftohex: Intel HEX records of a file in the given format *)
PERLINE == 16
Word(f, p) == f[p] + 256 * f[p + 1]
Record(addr, d) ==
  LET body == <<Len(d), (addr \div 256) % 256, addr % 256, 0>> \o d
      sum == SumSeq(body, 1)
      hex(b) == Flat([k \in 1..Len(b) |-> HexUp2(b[k])])
  IN <<58>> \o hex(Append(body, (256 - (sum % 256)) % 256)) \o <<CR, LF>>
RECURSIVE Records(_, _)
Records(addr, d) == IF d = <<>> THEN <<>>
                    ELSE LET k == Min(PERLINE, Len(d)) IN
                         Record(addr, SubSeq(d, 1, k)) \o Records(addr + k, From(d, k + 1))
RECURSIVE HunkRecords(_, _)
HunkRecords(f, p) ==
  IF p + 3 > Len(f) THEN <<>>
  ELSE LET len == Word(f, p + 2) IN
       Records(Word(f, p), SubSeq(f, p + 4, p + 3 + len)) \o HunkRecords(f, p + 4 + len)
EofRecord == T(":00000001FF") \o <<CR, LF>>
HexFile(fmt, f) ==
  (CASE fmt = 1 -> Records(Word(f, 1), From(f, 3))
     [] fmt = 2 -> HunkRecords(f, 1)
     [] fmt = 3 -> Records(0, f)) \o EofRecord
=============================================================================
