----------------------------- MODULE Catalogue -----------------------------
(* A catalogue: data sets whose subsets list files, and operations whose     *)
(* parameters have been resolved for every run.                             *)
(*   data set  [name, path, subsets : seq of [patterns, entries]]            *)
(*   entry     [name, time]                                                 *)
(*   operation [name, target, tool, runs : seq of [param key -> expected]]   *)
(* An expected value is [m |-> "seq", v |-> seq of sets of texts] (each      *)
(* position one of a set), or [m |-> "bag", v |-> set of texts] (any order). *)
EXTENDS Steps, NamePatterns, TLC

None == "<none>"
Rng(q) == {q[i] : i \in 1..Len(q)}
Unique(q) == Len(q) = Cardinality(Rng(q))
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
RECURSIVE Ascending(_, _)                    (* members of S in increasing order, S within lo.. *)
Ascending(S, lo) == IF S = {} THEN <<>> ELSE IF lo \in S THEN <<lo>> \o Ascending(S \ {lo}, lo + 1) ELSE Ascending(S, lo + 1)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
SelectStep(n, bad) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : i \notin bad)

(* ---- data sets ---- *)
DsIndex(ds, n) == LET I == {i \in 1..Len(ds) : ds[i].name = n} IN IF I = {} THEN 0 ELSE MinOf(I)
HasSubset(ds, p) == LET k == DsIndex(ds, p.ds) IN k # 0 /\ p.sub \in 0..(Len(ds[k].subsets) - 1)
SubsetOf(ds, p) == ds[DsIndex(ds, p.ds)].subsets[p.sub + 1]
PathOf(ds, p, e) == Join(ds[DsIndex(ds, p.ds)].path, SubsetOf(ds, p).entries[e].name)
EntriesFor(patterns, names) == {[name |-> x.name, time |-> x.time] : x \in FileMatches(patterns, names)}

(* ---- which entries belong to which step ---- *)
Timeless(st, sub) == st.kind # "once" /\ IdentifiedBy(st, sub.patterns) /\ \E e \in 1..Len(sub.entries) : sub.entries[e].time = NoTime
StepEntries(st, sub, i) ==
  IF IdentifiedBy(st, sub.patterns)
  THEN {e \in 1..Len(sub.entries) : st.kind = "once" \/ StepIndex(st, sub.entries[e].time) = i}
  ELSE LET n == StepName(st, sub.patterns, i) IN {e \in 1..Len(sub.entries) : sub.entries[e].name = n}

(* days of an annual step inside the period *)
Bigger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
YearAt(st, i) == YearOf(st.start.d) + i
StepDays(st, i) == LET a == Bigger(YearStart(YearAt(st, i)), st.start.d)
                       b == Smaller(YearStart(YearAt(st, i) + 1) - 1, st.end.d)
                   IN IF b < a THEN <<>> ELSE [k \in 1..(b - a + 1) |-> a + k - 1]
DayEntries(st, sub, i, d) ==
  IF IdentifiedBy(st, sub.patterns) THEN {e \in 1..Len(sub.entries) : sub.entries[e].time.d = d}
  ELSE StepEntries(st, sub, i)

Exactly(v) == [m |-> "seq", v |-> [k \in 1..Len(v) |-> {v[k]}]]
TimeText(t) == Render(<<"%Y", "%m", "%d", "%H", "%M", "%S">>, t)

FileKinds == {"inputfile", "inputlist", "annualdays"}
OutputKinds == {"output", "outputdays"}
(* is the input of step i missing? *)
MissingAt(ds, st, p, i) ==
  LET sub == SubsetOf(ds, p) IN
  IF p.kind = "annualdays"
  THEN \A k \in 1..Len(StepDays(st, i)) : DayEntries(st, sub, i, StepDays(st, i)[k]) = {}
  ELSE StepEntries(st, sub, i) = {}

InputOK(ds, st, p) ==
  p.kind \in FileKinds =>
    /\ HasSubset(ds, p)
    /\ ~Timeless(st, SubsetOf(ds, p))
    /\ p.kind = "inputfile" => \A i \in 0..(StepCount(st) - 1) : Cardinality(StepEntries(st, SubsetOf(ds, p), i)) <= 1
    /\ p.policy = "not_allowed" => \A i \in 0..(StepCount(st) - 1) : ~MissingAt(ds, st, p, i)
SkippedBy(ds, st, p) == IF p.kind \in FileKinds /\ p.policy = "skip" THEN {i \in 0..(StepCount(st) - 1) : MissingAt(ds, st, p, i)} ELSE {}

(* ---- outputs ---- *)
OutputTime(st, i) == IF st.kind = "once" THEN NoTime ELSE StepTime(st, i)
OutputOf(st, p, sub, i) ==                   (* entries produced at step i *)
  IF p.kind = "output" THEN << [name |-> StepName(st, sub.patterns, i), time |-> OutputTime(st, i)] >>
  ELSE LET D == StepDays(st, i)
       IN [k \in 1..Len(D) |-> [name |-> JoinAll([j \in 1..Len(sub.patterns) |-> Render(sub.patterns[j], T(D[k], 0, 0))]), time |-> T(D[k], 0, 0)]]
OutputOK(ds, st, p, kept) ==
  p.kind \in OutputKinds =>
    /\ HasSubset(ds, p)
    /\ SubsetOf(ds, p).entries = <<>>
    /\ (p.kind = "outputdays" /\ kept # <<>>) => {"%Y", "%m", "%d"} \subseteq Tokens(SubsetOf(ds, p).patterns)
RECURSIVE Merge(_, _)                        (* distinct names keep their first entry, in order of first appearance *)
Merge(done, more) == IF more = <<>> THEN done
                     ELSE Merge(IF \E i \in 1..Len(done) : done[i].name = Head(more).name THEN done ELSE Append(done, Head(more)), Tail(more))
RECURSIVE AllOutputs(_, _, _, _)
AllOutputs(st, p, sub, steps) == IF steps = <<>> THEN <<>> ELSE OutputOf(st, p, sub, Head(steps)) \o AllOutputs(st, p, sub, Tail(steps))
WithEntries(ds, p, es) == [ds EXCEPT ![DsIndex(ds, p.ds)].subsets[p.sub + 1].entries = es]
RECURSIVE ApplyOutputs(_, _, _, _)           (* [ok, ds] after the output parameters *)
ApplyOutputs(ds, st, ps, kept) ==
  IF ps = <<>> THEN [ok |-> TRUE, ds |-> ds]
  ELSE LET p == Head(ps) IN
       IF p.kind \notin OutputKinds THEN ApplyOutputs(ds, st, Tail(ps), kept)
       ELSE IF ~OutputOK(ds, st, p, kept) THEN [ok |-> FALSE, ds |-> ds]
       ELSE ApplyOutputs(WithEntries(ds, p, Merge(<<>>, AllOutputs(st, p, SubsetOf(ds, p), kept))), st, Tail(ps), kept)

(* ---- the value a run is given ---- *)
Value(ds, st, p, i) ==
  CASE p.kind = "inputfile" -> LET E == StepEntries(st, SubsetOf(ds, p), i)
                               IN IF E = {} THEN Exactly(<<None>>) ELSE Exactly(<<PathOf(ds, p, MinOf(E))>>)
    [] p.kind = "inputlist" -> LET E == StepEntries(st, SubsetOf(ds, p), i)
                               IN IF E = {} THEN Exactly(<<None>>) ELSE [m |-> "bag", v |-> {PathOf(ds, p, e) : e \in E}]
    [] p.kind = "annualdays" -> LET D == StepDays(st, i) sub == SubsetOf(ds, p)
                                IN [m |-> "seq", v |-> [k \in 1..Len(D) |-> LET E == DayEntries(st, sub, i, D[k])
                                                                            IN IF E = {} THEN {None} ELSE {PathOf(ds, p, e) : e \in E}]]
    [] p.kind = "steptime" -> Exactly(<<TimeText(StepTime(st, i))>>)
    [] p.kind = "stepindex" -> Exactly(<<ToString(i)>>)
    [] p.kind = "analysisindex" -> Exactly(<<ToString(st.start.d + i)>>)
    [] p.kind = "batchdayindices" -> LET D == StepDays(st, i) IN Exactly([k \in 1..Len(D) |-> ToString(D[k])])
    [] p.kind = "const" -> Exactly(<<p.value>>)
    [] p.kind = "timestamp" -> Exactly(<<"<ts>">>)
    [] p.kind = "catalogueid" -> Exactly(<<"<id>">>)
    [] p.kind \in OutputKinds -> LET sub == SubsetOf(ds, p) O == OutputOf(st, p, sub, i)
                                 IN Exactly([k \in 1..Len(O) |-> Join(ds[DsIndex(ds, p.ds)].path, O[k].name)])

(* ---- one operation added to the catalogue: [ok, ds, op] ---- *)
Fresh(d, path) == [name |-> d.name, path |-> IF d.path = "" THEN path ELSE d.path, subsets |-> [k \in 1..Len(d.subsets) |-> [patterns |-> d.subsets[k], entries |-> <<>>]]]
NoOp == [name |-> "", target |-> "", tool |-> "", runs |-> <<>>]
AddOperation(ds0, o, path, tool) ==
  LET ds == ds0 \o [k \in 1..Len(o.newdatasets) |-> Fresh(o.newdatasets[k], path)]
      st == o.step
      nopath == path = "" /\ \E k \in 1..Len(o.newdatasets) : o.newdatasets[k].path = ""
      good == /\ ~nopath
              /\ StepCount(st) >= 1
              /\ \A k \in 1..Len(o.params) : InputOK(ds, st, o.params[k])
      kept == SelectStep(StepCount(st), UNION {SkippedBy(ds, st, o.params[k]) : k \in 1..Len(o.params)})
      out == ApplyOutputs(ds, st, o.params, kept)
  IN IF ~good THEN [ok |-> FALSE, ds |-> ds0, op |-> NoOp]
     ELSE IF ~out.ok THEN [ok |-> FALSE, ds |-> ds0, op |-> NoOp]
     ELSE [ok |-> TRUE, ds |-> out.ds,
           op |-> [name |-> o.name, target |-> o.target, tool |-> tool, steps |-> kept,
                   runs |-> [r \in 1..Len(kept) |-> [k \in 1..Len(o.params) |-> [key |-> o.params[k].key, val |-> Value(IF o.params[k].kind \in OutputKinds THEN out.ds ELSE ds, st, o.params[k], kept[r])]]]]]
RECURSIVE AddAll(_, _, _, _, _)
AddAll(ds, ops, new, path, tool) ==
  IF new = <<>> THEN [ok |-> TRUE, ds |-> ds, ops |-> ops]
  ELSE LET r == AddOperation(ds, Head(new), path, tool)
       IN IF ~r.ok THEN [ok |-> FALSE, ds |-> ds, ops |-> ops] ELSE AddAll(r.ds, Append(ops, r.op), Tail(new), path, tool)

(* ---- a build: [ok, ds, ops]; listed is what the search of each new data set gave ---- *)
Chosen(desc, filter) == IF filter = "" THEN desc.datasets ELSE SelectSeq(desc.datasets, LAMBDA d : d.name = filter)
FirstOnly(q, filter) == IF filter = "" \/ q = <<>> THEN q ELSE <<q[1]>>
NewDatasets(desc, filter) == FirstOnly(Chosen(desc, filter), filter)
Searched(d, listed) == [name |-> d.name, path |-> d.path, subsets |-> [k \in 1..Len(d.subsets) |-> [patterns |-> d.subsets[k], entries |-> listed[k]]]]
Build(old, desc, filter, path, tool, listed) ==
  LET nd == NewDatasets(desc, filter)
  IN IF filter # "" /\ nd = <<>> THEN [ok |-> FALSE, ds |-> old.ds, ops |-> old.ops]
     ELSE AddAll(old.ds \o [k \in 1..Len(nd) |-> Searched(nd[k], listed[k])], old.ops, desc.operations, path, tool)

(* ---- finding and counting operations ---- *)
Hits(ops, q) == Cardinality({i \in 1..Len(ops) : ops[i].name = q /\ q # ""}) + Cardinality({i \in 1..Len(ops) : ops[i].target = q})
Named(ops, q) == ops[CHOOSE i \in 1..Len(ops) : ops[i].name = q \/ ops[i].target = q]
Batches(n, size) == (n + size - 1) \div size
Meets(exp, out) == IF exp.m = "seq" THEN Len(out) = Len(exp.v) /\ \A k \in 1..Len(out) : out[k] \in exp.v[k]
                   ELSE Unique(out) /\ Rng(out) = exp.v
(* a recorded call: sequence of [key, val] in any order *)
Called(run, call) == /\ Len(call) = Len(run)
                     /\ \A k \in 1..Len(run) : \E j \in 1..Len(call) : call[j].key = run[k].key /\ Meets(run[k].val, call[j].val)
=============================================================================
