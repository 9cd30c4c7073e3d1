------------------------------- MODULE Jobs -------------------------------
(* The stages of an analysis, what each of them reads, and jobs of a batch   *)
(* system that start when the jobs they wait for are done.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nm(s, i) == s \o "_" \o ToString(i)
(* what stage s of iteration i reads: the newest results there are of every component *)
Needs(s, i) ==
  LET before == IF i > 0 THEN {Nm("climatology_solve", i - 1), Nm("large_scale_solve", i - 1), Nm("local_input_and_solve", i - 1), Nm("nonstationary_local_input_and_solve", i - 1)} ELSE {}
  IN CASE s = "climatology_input" -> before
       [] s = "climatology_solve" -> {Nm("climatology_input", i)}
       [] s = "large_scale_input" -> {Nm("climatology_solve", i)} \cup (before \ {Nm("climatology_solve", i - 1)})
       [] s = "large_scale_solve" -> {Nm("large_scale_input", i)}
       [] s = "local_input_and_solve" -> {Nm("climatology_solve", i), Nm("large_scale_solve", i)}
       [] s = "nonstationary_local_input_and_solve" -> {Nm("climatology_solve", i), Nm("large_scale_solve", i)}
       [] s = "output_grid" -> {Nm("climatology_solve", i), Nm("large_scale_solve", i), Nm("local_input_and_solve", i), Nm("nonstationary_local_input_and_solve", i),
                                Nm("climatology_solve_prior_sample", i), Nm("large_scale_solve_prior_sample", i)}
       [] OTHER -> {}
Stages == {"climatology_input", "climatology_solve", "climatology_solve_prior_sample", "large_scale_input", "large_scale_solve", "large_scale_solve_prior_sample",
           "local_input_and_solve", "nonstationary_local_input_and_solve", "output_grid"}
If(b, s) == IF b THEN <<s>> ELSE <<>>
(* the stages of one iteration for a choice of stages, in order; p.prior and p.grid: the final iteration *)
OfIteration(p, i) ==
  If(p.ci, Nm("climatology_input", i)) \o If(p.cs, Nm("climatology_solve", i)) \o If(p.cs /\ p.prior, Nm("climatology_solve_prior_sample", i))
  \o If(p.li, Nm("large_scale_input", i)) \o If(p.ls, Nm("large_scale_solve", i)) \o If(p.ls /\ p.prior, Nm("large_scale_solve_prior_sample", i))
  \o If(p.lo, Nm(IF p.hyper THEN "nonstationary_local_input_and_solve" ELSE "local_input_and_solve", i)) \o If(p.grid, Nm("output_grid", i))
RECURSIVE OfIterations(_, _, _, _)
OfIterations(p, i, last, final) == IF i > last THEN <<>>
  ELSE OfIteration([p EXCEPT !.prior = (i = final), !.grid = (p.grid /\ i = final)], i) \o OfIterations(p, i + 1, last, final)
SeqSet(q) == {q[k] : k \in DOMAIN q}
(* everything a job waits for, directly or not; jobs wait only for jobs submitted before them *)
Ancestors(jobs) == LET RECURSIVE a(_)
                       a(k) == IF k = 0 THEN [x \in {} |-> {}]
                               ELSE LET p == a(k - 1) w == SeqSet(jobs[k].waits)
                                    IN p @@ (jobs[k].id :> (w \cup UNION {IF x \in DOMAIN p THEN p[x] ELSE {} : x \in w}))
                   IN a(Len(jobs))
(* reads is a function from names of operations to sets of those they read *)
Safe(jobs, reads) == LET an == Ancestors(jobs) IN
  \A a, b \in DOMAIN jobs : jobs[b].op \in reads[jobs[a].op] => jobs[b].id \in an[jobs[a].id]
=============================================================================
