------------------------------ MODULE MC_Jobs ------------------------------
(* All schedules of a batch system over the jobs of all choices of stages    *)
(* and iterations (the chain as it is meant to be submitted), and over all   *)
(* small graphs of jobs: jobs may fail, and then nothing that waits for them *)
(* starts.                                                                   *)
EXTENDS Jobs, Json
CONSTANTS Free, LastIt, Splits
VARIABLES jobs, reads, state, p
vars == <<jobs, reads, state, p>>
B == BOOLEAN
Batches(k) == 1 + (k % Splits)
(* jobs of a sequence of stages: every stage waits for all jobs of the one before *)
Chain(sts) == LET RECURSIVE c(_)
                  c(k) == IF k = 0 THEN <<>>
                          ELSE LET q == c(k - 1)
                                   prev == IF k = 1 THEN <<>> ELSE [n \in 1 .. Batches(k - 1) |-> ToString((Len(q) - Batches(k - 1)) + n)]
                               IN q \o [n \in 1 .. Batches(k) |-> [id |-> ToString(Len(q) + n), op |-> sts[k], waits |-> prev]]
              IN c(Len(sts))
NeedsOf(name) == CHOOSE r \in {Needs(x[1], x[2]) : x \in {y \in Stages \X (0 .. LastIt) : Nm(y[1], y[2]) = name}} : TRUE
Params == [ci : B, cs : B, li : B, ls : B, lo : B, hyper : {FALSE}, prior : {FALSE}, grid : B, first : 0 .. LastIt, last : 0 .. LastIt, final : 0 .. LastIt]
FreeJobs == {[k \in 1 .. 4 |-> [id |-> ToString(k), op |-> ToString(k), waits |-> w[k]]] :
             w \in {f \in [1 .. 4 -> {<<>>, <<"1">>, <<"2">>, <<"3">>, <<"1", "2">>, <<"2", "3">>, <<"1", "3">>, <<"1", "2", "3">>}] :
                    \A k \in 1 .. 4 : \A x \in SeqSet(f[k]) : x \in {ToString(n) : n \in 1 .. k - 1}}}
Init == IF Free
  THEN /\ p = [free |-> TRUE] /\ jobs \in FreeJobs
       /\ reads \in {[x \in {ToString(n) : n \in 1 .. 4} |-> {ToString(n) : n \in {m \in 1 .. 4 : <<x, m>> \in r}}] :
                     r \in {{<<"4", 1>>}, {<<"4", 2>>, <<"3", 1>>}, {<<"4", 3>>, <<"2", 1>>}, {<<"4", 1>>, <<"4", 2>>, <<"4", 3>>}, {<<"3", 1>>, <<"3", 2>>}}}
       /\ state = [k \in 1 .. 4 |-> "pend"]
  ELSE /\ p \in {q \in Params : q.first <= q.last}
       /\ LET sts == OfIterations(p, p.first, p.last, p.final) IN
            /\ Len(sts) > 0 /\ jobs = Chain(sts) /\ reads = [x \in SeqSet(sts) |-> NeedsOf(x)]
       /\ state = [k \in DOMAIN jobs |-> "pend"]
       /\ PrintT("@@SC " \o ToJson(p))
Done(id) == \E k \in DOMAIN jobs : jobs[k].id = id /\ state[k] = "done"
Start(k) == state[k] = "pend" /\ (\A x \in SeqSet(jobs[k].waits) : Done(x)) /\ state' = [state EXCEPT ![k] = "run"]
End(k) == state[k] = "run" /\ \E r \in {"done", "exit"} : state' = [state EXCEPT ![k] = r]
Next == (\E k \in DOMAIN jobs : Start(k) \/ End(k)) /\ UNCHANGED <<jobs, reads, p>>
(* whatever has started finds everything it reads *)
NoEarlyStart == Safe(jobs, reads) => \A a, b \in DOMAIN jobs : state[a] # "pend" /\ jobs[b].op \in reads[jobs[a].op] => state[b] = "done"
(* the chain is safe *)
ChainSafe == ~Free => Safe(jobs, reads)
(* and the criterion is exact: what is not waited for can be overtaken *)
Exact == Free /\ ~Safe(jobs, reads) =>
  LET an == Ancestors(jobs) IN
  \E a, b \in DOMAIN jobs : jobs[b].op \in reads[jobs[a].op] /\ jobs[b].id \notin an[jobs[a].id] /\ \A c \in DOMAIN jobs : jobs[c].id \in an[jobs[a].id] => jobs[b].id \notin an[jobs[c].id]
(* every requested stage once *)
Once == ~Free => LET sts == OfIterations(p, p.first, p.last, p.final) IN Cardinality(SeqSet(sts)) = Len(sts)
=============================================================================
