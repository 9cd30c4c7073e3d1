------------------------------- MODULE T_C17 -------------------------------
EXTENDS TraceBase, Jobs
VARIABLES sub
(* sub: the submission whose jobs are looked at *)
vars == <<sub>>
Init == TraceInit /\ sub = <<>>
(* ------------------------------------------------------------ submission *)
Cnt(e, op) == LET S == {k \in DOMAIN e.counts : e.counts[k].op = op} IN IF S = {} THEN 0 ELSE e.counts[CHOOSE k \in S : TRUE].n
It(op, i) == IF i < 0 THEN op ELSE Nm(op, i)
RECURSIVE ShellStages(_)
ShellStages(i) == IF i > 2 THEN <<"output_grid">>
  ELSE <<Nm("climatology_input", i), Nm("climatology_solve", i), Nm("large_scale_input", i), Nm("large_scale_solve", i), Nm("local_input_and_solve", i)>> \o ShellStages(i + 1)
Wanted(e) == CASE e.kind = "multi" -> OfIterations(e.p, e.p.first, e.p.last, e.p.final)
               [] e.kind = "iteration" -> OfIteration(e.p, e.p.it)
               [] e.kind = "optimise" -> <<It("split_local_component", e.it), It("input_summaries_create", e.it), It("input_summaries_merge", e.it)>>
               [] e.kind = "shell" -> ShellStages(0)
               [] OTHER -> <<"a_stage">>
ReadsOf(e, name) ==
  IF e.kind = "optimise" THEN IF name = It("input_summaries_merge", e.it) THEN {It("input_summaries_create", e.it)} ELSE {}
  ELSE IF name = "output_grid" THEN Needs("output_grid", 2)
  ELSE LET S == {x \in Stages \X (0 .. 4) : Nm(x[1], x[2]) = name} IN IF S = {} THEN {} ELSE LET x == CHOOSE x \in S : TRUE IN Needs(x[1], x[2])
Elements(jobs, op) == {k \in DOMAIN jobs : jobs[k].op = op}
Submit == Is("submit") /\ LET e == Ev.in o == Ev.out jobs == o.jobs w == Wanted(e)
                              missing == {k \in DOMAIN w : Cnt(e, w[k]) <= 0}
                              ops == {jobs[k].op : k \in DOMAIN jobs}
                              ids == {jobs[k].id : k \in DOMAIN jobs}
                              failed == e.failat > 0 /\ o.calls >= e.failat
                              an == Ancestors(jobs)
  IN (/\ Cardinality(ids) = Len(jobs)
      (* nothing but what was asked for, and nothing after a failure *)
      /\ ops \subseteq SeqSet(w)
      /\ (failed => o.calls = e.failat /\ Len(jobs) = e.failat - 1)
      /\ (~failed => Len(jobs) = o.calls)
      /\ \A k \in missing : \A j \in DOMAIN w : j >= k => w[j] \notin ops
      /\ o.status = IF failed \/ missing # {} THEN "error" ELSE "ok"
      /\ (o.status = "ok" => ops = SeqSet(w))
      (* under every schedule everything that is read is there *)
      /\ Safe(jobs, [x \in SeqSet(w) |-> ReadsOf(e, x)])
      /\ \A k \in DOMAIN jobs : SeqSet(e.pre) \subseteq an[jobs[k].id]
      /\ \A k \in DOMAIN jobs : SeqSet(jobs[k].waits) \subseteq (SeqSet(e.pre) \cup {jobs[j].id : j \in 1 .. k - 1})
      (* what is handed on to the next submission stands for everything submitted *)
      /\ (o.status = "ok" /\ e.kind \in {"iteration", "optimise", "direct", "grouped"}) =>
           LET h == SeqSet(o.handed) all == h \cup UNION {an[x] : x \in h \cap ids}
           IN h \subseteq (ids \cup SeqSet(e.pre)) /\ ids \subseteq all /\ SeqSet(e.pre) \subseteq all
     ) = TRUE
  /\ sub' = <<e, o>>
(* the elements of the arrays run every counted run once, and fail when a run of theirs fails *)
Ran == Is("elements") /\ LET els == Ev.out.els jobs == sub[2].jobs e == sub[1]
                             opof == [x \in {jobs[k].id : k \in DOMAIN jobs} |-> jobs[CHOOSE k \in DOMAIN jobs : jobs[k].id = x].op]
                             pairs(op) == UNION {{<<k, n>> : n \in DOMAIN els[k].runs} : k \in {m \in DOMAIN els : opof[els[m].job] = op}}
  IN (/\ \A k \in DOMAIN els : els[k].cat /\ (els[k].failed => ~els[k].ok) /\ (~els[k].failed => els[k].ok)
                               /\ \A n \in DOMAIN els[k].runs : els[k].runs[n].op = opof[els[k].job] /\ els[k].runs[n].ix \in 0 .. Cnt(e, els[k].runs[n].op) - 1
      /\ \A op \in {opof[x] : x \in DOMAIN opof} :
           /\ \A x, y \in pairs(op) : els[x[1]].runs[x[2]].ix = els[y[1]].runs[y[2]].ix => x = y
           /\ (Ev.in.whole /\ sub[2].status = "ok") => Cardinality(pairs(op)) = Cnt(e, op)
     ) = TRUE
  /\ UNCHANGED sub
(* ----------------------------------------------------------- descriptors *)
(* names of datasets of an iteration *)
D(ds, k, i) == ds[k] \o "_" \o ToString(i)
Smp(ds, k, i) == ds[k] \o "_sample_" \o ToString(i)
Pri(ds, k, i) == ds[k] \o "_prior_sample_" \o ToString(i)
Op(name, must, may, writes, once) == [name |-> name, must |-> must, may |-> may, writes |-> writes, once |-> once]
Iter(e, i) == LET ds == e.ds fin == i = e.last /\ e.grid single == e.which = "eumopps_single"
                  prev(k) == IF i > 0 THEN {D(ds, k, i - 1)} ELSE {}
                  own(k) == IF single THEN {} ELSE prev(k)
                  samples(k) == IF fin THEN {Smp(ds, k, i)} \cup (IF single \/ k = "lo" THEN {Pri(ds, k, i)} ELSE {}) ELSE {}
                  prior(k, name) == IF fin /\ ~single THEN <<Op(Nm(name, i), {}, {}, {Pri(ds, k, i)}, TRUE)>> ELSE <<>>
  IN <<Op(Nm("climatology_input", i), prev("ls") \cup prev("lo"), own("cs"), {D(ds, "ci", i)}, FALSE),
       Op(Nm("climatology_solve", i), {D(ds, "ci", i)}, {}, {D(ds, "cs", i)} \cup samples("cs"), TRUE)>>
     \o prior("cs", "climatology_solve_prior_sample")
     \o <<Op(Nm("large_scale_input", i), {D(ds, "cs", i)} \cup prev("lo"), own("ls"), {D(ds, "li", i)}, FALSE),
          Op(Nm("large_scale_solve", i), {D(ds, "li", i)}, {}, {D(ds, "ls", i)} \cup samples("ls"), TRUE)>>
     \o prior("ls", "large_scale_solve_prior_sample")
     \o <<Op(Nm("local_input_and_solve", i), {D(ds, "cs", i), D(ds, "ls", i)}, {}, {D(ds, "lo", i)} \cup samples("lo"), FALSE)>>
Grid(e) == LET ds == e.ds i == e.last suffix(x) == IF e.which = "eustace_batch" THEN x \o "_" \o ToString(i) ELSE x
  IN IF ~e.grid THEN <<>>
     ELSE <<Op(suffix("output_grid"), UNION {{D(ds, k, i), Smp(ds, k, i), Pri(ds, k, i)} : k \in {"cs", "ls", "lo"}}, {}, {suffix(ds[k]) : k \in {"og", "oc", "ol", "oo"}}, FALSE)>>
RECURSIVE Iters(_, _)
Iters(e, i) == IF i > e.last THEN <<>> ELSE Iter(e, i) \o Iters(e, i + 1)
Descriptor == Is("descriptor") /\ LET e == Ev.in ops == Ev.out.ops want == Iters(e, e.first) \o Grid(e)
                                      has(x) == {k \in DOMAIN ops : ops[k].name = x}
  IN (/\ Len(ops) = Len(want)
      /\ \A k \in DOMAIN want : LET x == want[k] IN Cardinality(has(x.name)) = 1 /\ LET o == ops[CHOOSE n \in has(x.name) : TRUE] IN
           /\ x.must \subseteq SeqSet(o.reads) /\ SeqSet(o.reads) \subseteq (x.must \cup x.may)
           /\ SeqSet(o.writes) = x.writes /\ SeqSet(o.new) = x.writes /\ Len(o.new) = Cardinality(x.writes)
           /\ (o.once <=> x.once) /\ (x.once \/ o.period)
      (* operations come after those they read *)
      /\ \A a, b \in DOMAIN ops : SeqSet(ops[a].reads) \cap SeqSet(ops[b].writes) # {} => b < a
      /\ \A a, b \in DOMAIN ops : a # b => SeqSet(ops[a].writes) \cap SeqSet(ops[b].writes) = {}
     ) = TRUE
  /\ UNCHANGED sub
Next == Submit \/ Ran \/ Descriptor
=============================================================================
