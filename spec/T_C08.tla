------------------------------- MODULE T_C08 -------------------------------
(* Trace specification: storing objects and catalogues, reading them back,    *)
(* whole or in parts.                                                         *)
EXTENDS Store, TraceBase
VARIABLES cat
Init == TraceInit /\ cat = Nil
StoreEv == /\ Is("store")
           /\ IF Ev.out.ok THEN Same(Ev.out.back, Ev.in.val) /\ (IF Ev.out.ok2 THEN Same(Ev.out.again, Ev.in.val) ELSE Storable(Ev.out.back) = FALSE) /\ Storable(Ev.in.val) = TRUE
              ELSE Storable(Ev.in.val) = FALSE
           /\ UNCHANGED cat
TextEv == Is("text") /\ SameText(Ev.out.back, Ev.in.val) /\ UNCHANGED cat
CatEv == /\ Is("catalogue") /\ Ev.out.ok /\ Same(Ev.out.back, Ev.in.val) /\ cat' = Ev.in.val
(* ---- parts of the catalogue last written ---- *)
Field(x, key) == IF \E j \in 1..Len(x.m) : x.m[j].key = key THEN At(x, key) ELSE Nil
ListOf(x, key) == LET f == Field(x, key) IN IF f.k = "l" THEN f.v ELSE <<>>
Ops == ListOf(cat, "operations")
NamedBy(o, q) == (IF Field(o, "name") = S(q) THEN 1 ELSE 0)
               + (LET r == Field(o, "runmodule") IN (IF r.c = q THEN 1 ELSE 0) + (IF Field(r, "python_function") = S(q) THEN 1 ELSE 0))
RECURSIVE Total(_, _)
Total(q, j) == IF j = 0 THEN 0 ELSE NamedBy(Ops[j], q) + Total(q, j - 1)
TheOp(q) == Ops[CHOOSE j \in 1..Len(Ops) : NamedBy(Ops[j], q) > 0]
Identity == Is("identity") /\ S(Ev.out.id) = Field(cat, "identifier") /\ UNCHANGED cat
OpEv == /\ Is("operation") /\ UNCHANGED cat
        /\ LET n == Total(Ev.in.q, Len(Ops)) IN
           CASE n = 1 -> Ev.out.ok /\ Same(Ev.out.op, TheOp(Ev.in.q)) /\ I(ToString(Ev.out.count)) = Field(TheOp(Ev.in.q), "count")
                      /\ \A z \in DOMAIN Ev.out.batches : Ev.out.batches[z] = (Ev.out.count + z - 1) \div z
             [] n = 0 -> ~Ev.out.ok
             [] OTHER -> ~Ev.out.ok
DatasetOf(d) == ListOf(cat, "datasets")[d + 1]
SubsetAt(d, s) == ListOf(DatasetOf(d), "subsets")[s + 1]
EntryAt(d, s, e) == ListOf(SubsetAt(d, s), "matches")[e + 1]
Paths == /\ Is("paths") /\ UNCHANGED cat
         /\ Len(Ev.out.paths) = Len(Ev.in.refs)
         /\ \A j \in 1..Len(Ev.in.refs) : LET r == Ev.in.refs[j] IN
              Ev.out.paths[j] = IF r[3] < 0 THEN "<none>" ELSE Field(DatasetOf(r[1]), "path").v \o "/" \o Field(EntryAt(r[1], r[2], r[3]), "name").v
Next == StoreEv \/ TextEv \/ CatEv \/ Identity \/ OpEv \/ Paths
=============================================================================
