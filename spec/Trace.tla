-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance: recorded runs of the real assembler are checked against    *)
(* the behaviour of the specification.  A run records the list file of all *)
(* passes, the exit status, standard output, the output file and the       *)
(* symbol file.  The list file is compared step by step with the events of *)
(* the behaviour, the rest when it ends.  Every difference is reported     *)
(* with its kind; the driver decides which kinds matter for a property.    *)
(***************************************************************************)
EXTENDS Reports, Json, IOUtils

VARIABLES n,     \* steps taken
          cmp    \* [i: list lines consumed, -1 once they no longer agree,
                 \*  p: list lines consumed when the current pass began, bad: differences found,
                 \*  cov: classes of lines executed]
vars == <<w, n, cmp>>

Pairs(seq) == [k \in {seq[j][1] : j \in DOMAIN seq} |-> seq[CHOOSE j \in DOMAIN seq : seq[j][1] = k][2]]
\* a run with a command line of its own records the files it left: name, whether it is as it was, bytes, lines
Left(t) == [k \in {t.obs.tree[j][1] : j \in DOMAIN t.obs.tree} |-> t.obs.tree[CHOOSE j \in DOMAIN t.obs.tree : t.obs.tree[j][1] = k]]
Obs(v) ==      \* what was recorded, under the names the command line gives
  LET t == Test(v.tid) IN
  IF ~t.cmd THEN t.obs
  ELSE LET f == Left(t)
           File(x, k) == IF x \in DOMAIN f THEN f[x][k] ELSE <<>>
       IN [t.obs EXCEPT !.out = File(v.opt.out, 3), !.hasout = v.opt.out \in DOMAIN f,
                        !.list = File(v.opt.list, 4), !.sym = File(v.opt.sym, 4)]
Loaded == LET raw == ndJsonDeserialize(IOEnv.TESTS) IN
            [k \in DOMAIN raw |-> [raw[k] EXCEPT !.files = Pairs(@), !.bins = Pairs(@)]]
TraceTest(k) == Loaded[k]

NameOf(line, want) ==      \* a name may contain a protected blank
  LET m == CutAt(line, {SP}) IN
  IF m \notin DOMAIN want /\ \E x \in DOMAIN want : want[x] = line THEN CHOOSE x \in DOMAIN want : want[x] = line ELSE m
\* differences as texts, which TLC can always compare
D(S) == {ToJson(x) : x \in S}
\* f: the lines of the symbol file; the set of differences
SymDiffs(v, f) ==
  LET k == Len(f)
      body == SubSeq(f, 2, k - 1)
      want == [m \in DOMAIN v.syms |-> Norm(SymLine(m, v.syms[m]))]
      names == [j \in DOMAIN body |-> NameOf(body[j], want)]
      InOrder(a, b) == CASE v.opt.sort = 0 -> LexLe(Lower(a), Lower(b), 1)
                        [] v.opt.sort = 1 -> Le(v.syms[a].v, v.syms[b].v)
                        [] v.opt.sort = 2 -> v.syms[a].ord <= v.syms[b].ord
      wrong == {j \in DOMAIN body : names[j] \notin DOMAIN want \/ body[j] # want[names[j]]}
      missing == {m \in DOMAIN want : \A j \in DOMAIN names : names[j] # m}
  IN IF k < 2 \/ f[1] # SymHead(v) \/ f[k] # SymFoot THEN D({<<"symfile", f>>})
     ELSE D({<<"symbols", body[j], IF names[j] \in DOMAIN want THEN want[names[j]] ELSE <<>>>> : j \in wrong})
          \union D({<<"symbols", <<>>, want[m]>> : m \in missing})
          \union (IF Len(body) > Cardinality(DOMAIN want) THEN D({<<"symfile", f>>}) ELSE {})
          \union D({<<"symfile", body[j], body[j + 1]>> :
                  j \in {x \in 1..(Len(body) - 1) :
                         names[x] \in DOMAIN want /\ names[x + 1] \in DOMAIN want /\ ~InOrder(names[x], names[x + 1])}})

--------------------------------------------------------------------------
RECURSIVE Bisect(_, _, _, _)
Bisect(a, b, lo, hi) ==       \* they agree before lo, not up to hi
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi) \div 2 IN
       IF SubSeq(a, lo, m) = SubSeq(b, lo, m) THEN Bisect(a, b, m + 1, hi) ELSE Bisect(a, b, lo, m)
FirstDiff(a, b) == LET k == Min(Len(a), Len(b)) IN
                   IF SubSeq(a, 1, k) = SubSeq(b, 1, k) THEN k + 1 ELSE Bisect(a, b, 1, k)
SeqDiff(kind, want, got) ==
  IF want = got THEN {}
  ELSE LET k == FirstDiff(want, got) IN
       D({<<kind, k, SubSeq(want, k, Min(Len(want), k + 7)), SubSeq(got, k, Min(Len(got), k + 7)), Len(want), Len(got)>>})

IsHead(l, main) == LET h == T("------- FILE ") \o main \o T(" LEVEL 1 PASS ") IN Len(l) > Len(h) /\ Take(l, Len(h)) = h
Heads(v) == LET ls == Obs(v).list IN Cardinality({k \in DOMAIN ls : IsHead(ls[k], v.opt.main)})
Passes(v) == IF Test(v.tid).cmd THEN Heads(v) ELSE Test(v.tid).obs.passes
Listed(v) == ~Test(v.tid).cmd \/ (v.opt.list \in Made(v) /\ v.opt.all)          \* the list of all passes is there
\* the files a run with a command line of its own should leave
FileDiffs(v) ==
  LET t == Test(v.tid)
      was == DOMAIN t.bins
      want == (was \union Made(v)) \ Gone(v)
      f == Left(t)
  IN IF ~t.cmd THEN {}
     ELSE D({<<"files", "absent", x>> : x \in want \ DOMAIN f}) \union D({<<"files", "present", x>> : x \in DOMAIN f \ want})
          \union D({<<"files", "changed", x>> : x \in {y \in was \ Made(v) : y \in DOMAIN f /\ ~f[y][2]}})
          \union (IF v.opt.list \in Made(v) /\ ~v.opt.all /\ Heads(v) # (IF v.opt.main \in DOMAIN t.files THEN 1 ELSE 0) THEN D({<<"files", "passes in list", Heads(v)>>}) ELSE {})
Told(v) == v.exit # E_PASSES /\ ~v.opt.bad /\ v.opt.cant = NoStr          \* standard output is specified
Final(v, ii, pp) ==
  LET o == Obs(v)
      out == OutFile(v)
  IN (IF o.exit # v.exit THEN D({<<"exit", v.exit, o.exit>>}) ELSE {})
     \union (IF v.exit = 0 /\ o.exit = 0 THEN SeqDiff("bytes", out, o.out) ELSE {})
     \union (IF o.exit # 0 /\ v.opt.remove /\ o.hasout /\ ~Test(v.tid).cmd THEN D({<<"outfile", "present">>}) ELSE {})
     \union (IF o.exit = 0 /\ ~o.hasout THEN D({<<"outfile", "absent">>}) ELSE {})
     \union (IF ~Told(v) THEN {} ELSE SeqDiff(IF v.exit = 0 THEN "echo" ELSE "errors", Lines(StdOut(v), 1), o.stdout))
     \union (IF v.exit = E_NOTRES /\ (UnresLines(v) # {o.unres[k] : k \in DOMAIN o.unres} \/ Cardinality(UnresLines(v)) # Len(o.unres))
             THEN D({<<"unresolved", UnresLines(v), o.unres>>}) ELSE {})
     \union (IF v.opt.symfile /\ Writes(v) THEN SymDiffs(v, o.sym) ELSE {})
     \union (IF Passes(v) # v.pass - (IF v.exit = E_PASSES THEN 1 ELSE 0) /\ v.ph # "boot" /\ Listed(v) /\ v.opt.main \in DOMAIN Test(v.tid).files
             THEN D({<<"passes", v.pass, Passes(v)>>}) ELSE {})
     \union FileDiffs(v)
     \union (IF ii >= 0 /\ ii # Len(o.list) THEN D({<<"list", ii + 1, <<>>, o.list[ii + 1]>>}) ELSE {})
     \union (IF v.opt.last /\ v.ph # "boot" /\ pp >= 0 THEN SeqDiff("last", SubSeq(o.list, pp + 1, Len(o.list)), o.last) ELSE {})

--------------------------------------------------------------------------
Matches(list, k, ls) == k + Len(ls) <= Len(list) /\ \A x \in 1..Len(ls) : list[k + x] = ls[x]
Consume(v, k) ==     \* <<new index, differences>>
  IF k < 0 THEN <<k, {}>>
  ELSE LET ls == Lines(v.evs, 1)
           got == Obs(v).list
       IN IF Matches(got, k, ls) THEN <<k + Len(ls), {}>>
       ELSE <<-1, D({<<"list", k + 1, ls, SubSeq(got, k + 1, Min(Len(got), k + Len(ls)))>>})>>

\* what is known about a run after the step to v; was: the pass before it
Compared(v, was, o, steps) ==
  LET p == IF v.pass # was /\ Running(v) THEN o.i ELSE o.p
      c == IF ~Listed(v) THEN <<-1, {}>> ELSE IF v.ph = "boot" THEN <<0, {}>> ELSE Consume(v, o.i)
      bad == o.bad \union c[2]
  IN [i |-> c[1], p |-> p, cov |-> IF v.ph = "exec" THEN o.cov \union {IF Skipped(v) THEN "skip" ELSE v.kind[1]} ELSE o.cov,
      bad |-> IF Running(v) THEN bad ELSE bad \union Final(v, c[1], p)]
Report(v, steps, o) == Running(v) \/ PrintT(<<"RESULT", v.tid, v.exit, v.pass, steps, ToJson(o.bad), ToJson(o.cov)>>)

Begin(t) == LET x == Test(t) IN IF x.cmd THEN [State0(t) EXCEPT !.opt = Options(x.argv, DOMAIN x.bins)] ELSE State0(t)
Init == \E t \in DOMAIN Loaded : w = Begin(t) /\ n = 0 /\ cmp = [i |-> 0, p |-> 0, cov |-> {}, bad |-> {}]
Advance(v) == /\ Step(v)
              /\ n' = n + 1
              /\ cmp' = Compared(w', w.pass, cmp, n + 1)
              /\ Report(w', n', cmp')
Next == <<Advance(w)>>_vars
Spec == Init /\ [][Next]_vars
View == <<w.tid, n>>
=============================================================================
