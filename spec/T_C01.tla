------------------------------- MODULE T_C01 -------------------------------
(* Trace specification: searches of a data set whose directory changes.       *)
EXTENDS NamePatterns, TraceBase
VARIABLES fs, subsets, cls       (* files below the base path; declared subsets; what each name says to each subset *)
Range(q) == {q[i] : i \in 1..Len(q)}
NoDup(q) == Len(q) = Cardinality(Range(q))
MembersOf(n) == Range(fs[n])

Init == TraceInit /\ fs = [x \in {} |-> <<>>] /\ subsets = <<>> /\ cls = <<>>
Describe == Is("describe") /\ subsets' = Ev.in.subsets /\ UNCHANGED <<fs, cls>>
(* the tree as it is now: files, with the members of those that are archives *)
NewTree == [n \in Range(Ev.in.names) |-> Ev.in.members[CHOOSE i \in 1..Len(Ev.in.names) : Ev.in.names[i] = n]]
Tree == /\ Is("tree") /\ UNCHANGED subsets
        /\ fs' = NewTree
        /\ cls' = [i \in 1..Len(subsets) |->
              LET s == subsets[i] IN
              IF s.kind = "files" THEN [n \in DOMAIN NewTree |-> Classify(s.patterns, n)]
              ELSE LET arch == {n \in DOMAIN NewTree : Classify(<<s.archive>>, n).k # "none"}
                       mem == UNION {Range(NewTree[n]) : n \in arch}
                   IN [arch |-> arch, m |-> [x \in mem |-> Classify(<<s.internal>>, x)]]]

(* kind of listing k \in {"entry", "error", "none"} *)
FilesOf(i, k) == {n \in DOMAIN fs : cls[i][n].k = k}
MembersIn(i, n, k) == {m \in MembersOf(n) : cls[i].m[m].k = k}
Entry(c, name) == [name |-> name, time |-> c.time, tags |-> c.tags]
IsFiles(i) == subsets[i].kind = "files"
ExpMatches(i) ==
  IF IsFiles(i) THEN {Entry(cls[i][n], n) : n \in FilesOf(i, "entry")}
  ELSE UNION {{Entry(cls[i].m[m], n \o ":" \o m) : m \in MembersIn(i, n, "entry")} : n \in cls[i].arch}
ExpTouched(i) == IF IsFiles(i) THEN FilesOf(i, "entry") \cup FilesOf(i, "error") ELSE cls[i].arch
(* date errors name the member only, so those of equal members of two archives coincide: compare as a bag *)
ErrorCount(i, e) == IF IsFiles(i) THEN (IF e \in FilesOf(i, "error") THEN 1 ELSE 0)
                    ELSE Cardinality({n \in cls[i].arch : e \in MembersIn(i, n, "error")})
ExpErrorNames(i) == IF IsFiles(i) THEN FilesOf(i, "error") ELSE UNION {MembersIn(i, n, "error") : n \in cls[i].arch}
ExpUnused(i) == IF IsFiles(i) THEN {} ELSE UNION {{n \o ":" \o m : m \in MembersIn(i, n, "none")} : n \in cls[i].arch}
SubsetOK(i, o) ==
  /\ NoDup(o.matches) /\ Range(o.matches) = ExpMatches(i)
  /\ Range(o.errors) = ExpErrorNames(i)
  /\ \A e \in Range(o.errors) : Cardinality({j \in 1..Len(o.errors) : o.errors[j] = e}) = ErrorCount(i, e)
  /\ NoDup(o.unused) /\ Range(o.unused) = ExpUnused(i)
Search ==
  /\ Is("search")
  /\ Len(Ev.out.subsets) = Len(subsets)
  /\ \A i \in 1..Len(subsets) : SubsetOK(i, Ev.out.subsets[i])
  /\ NoDup(Ev.out.unmatched)
  /\ Range(Ev.out.unmatched) = DOMAIN fs \ UNION {ExpTouched(i) : i \in 1..Len(subsets)}
  /\ UNCHANGED <<fs, subsets, cls>>
Next == Describe \/ Tree \/ Search
=============================================================================
