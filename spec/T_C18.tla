------------------------------- MODULE T_C18 -------------------------------
EXTENDS TraceBase, Merge
VARIABLES days, held, now
(* days: products as given; held: per day whether both merged files are known to be complete; *)
(* now: per day the source files as last seen *)
vars == <<days, held, now>>
Init == TraceInit /\ days = <<>> /\ held = <<>> /\ now = <<>>
Present(d) == {i \in DOMAIN d.src : d.src[i].main /\ d.src[i].anc}
Mismatch(d) == \E i \in DOMAIN d.src : d.src[i].main # d.src[i].anc
Kept(d) == LET P == Present(d) IN [j \in 1 .. Cardinality(P) |-> CHOOSE i \in P : Cardinality({k \in P : k < i}) = j - 1]
OneDate(d) == Cardinality(Present(d)) = 1 \/ Cardinality({d.src[i].date : i \in Present(d)} \cup {d.src[i].adate : i \in Present(d)}) <= 1
Cells(d) == 1 .. d.cells
Col(v, kept, c) == [j \in DOMAIN kept |-> v[kept[j]][c]]
Named(vs, name) == {i \in DOMAIN vs : vs[i].name = name}
Value(vs, name) == vs[CHOOSE i \in Named(vs, name) : TRUE].v
HasAll(vs, names) == \A n \in names : Cardinality(Named(vs, n)) = 1
Names(vs) == {vs[i].name : i \in DOMAIN vs}
Zeros(n) == [i \in 1 .. ((n * (n - 1)) \div 2) |-> 0]
(* the merged values of a variable *)
MergedOk(d, var, out) == LET kept == Kept(d) n == Len(d.src) IN
  /\ Len(out) = d.cells
  /\ \A c \in Cells(d) :
       IF Len(kept) = 1 THEN out[c] = var.v[kept[1]][c]
       ELSE IF var.kind = "mean" THEN MeanOk(Col(var.v, kept, c), out[c])
       ELSE PropOk(Col(var.v, kept, c), IF var.kind = "total" THEN Zeros(Len(kept)) ELSE Keep(n, var.r, kept), out[c])
Complete(d, o) == LET kept == Kept(d) IN
  /\ o.mm.st = "ok" /\ o.ma.st = "ok"
  /\ HasAll(o.mm.v, Names(d.prim)) /\ HasAll(o.ma.v, Names(d.anc))
  /\ o.mm.date = d.src[kept[1]].date /\ o.ma.date = d.src[kept[1]].adate
  /\ \A i \in DOMAIN d.prim : MergedOk(d, d.prim[i], Value(o.mm.v, d.prim[i].name))
  /\ \A i \in DOMAIN d.anc : MergedOk(d, d.anc[i], Value(o.ma.v, d.anc[i].name))
  /\ Len(kept) > 1 => \A j \in DOMAIN kept : \A i \in DOMAIN (d.prim \o d.anc) :
       LET var == (d.prim \o d.anc)[i] name == var.name \o "_" \o d.src[kept[j]].label
       IN HasAll(o.ma.v, {name}) /\ Value(o.ma.v, name) = var.v[kept[j]]
Untouched(d, o) == \A i \in DOMAIN d.src : o.main[i] = d.src[i].main /\ o.anc[i] = d.src[i].anc
Gone(d, o) == \A i \in DOMAIN d.src : ~o.main[i] /\ ~o.anc[i]
Absent(o) == o.mm.st = "absent" /\ o.ma.st = "absent"

(* a run that fails or is killed at any point *)
Faulty(d, o) ==
  IF Mismatch(d) \/ Present(d) = {} \/ ~OneDate(d) THEN Untouched(d, o)
  ELSE IF Cardinality(Present(d)) = 1
  THEN LET i == CHOOSE i \in Present(d) : TRUE
       IN (* each of the two files is under its old or its new name, with its values *)
          /\ (o.main[i] \/ (o.mm.st = "ok" /\ HasAll(o.mm.v, Names(d.prim)) /\ \A k \in DOMAIN d.prim : Value(o.mm.v, d.prim[k].name) = d.prim[k].v[i]))
          /\ (o.anc[i] \/ (o.ma.st = "ok" /\ HasAll(o.ma.v, Names(d.anc)) /\ \A k \in DOMAIN d.anc : Value(o.ma.v, d.anc[k].name) = d.anc[k].v[i]))
  ELSE Untouched(d, o) \/ Complete(d, o)
(* after a run: refused with nothing touched, nothing to do, or merged; a run after one that was cut short and left *)
(* some of the sources merges nothing new: what is complete stays complete *)
Pristine(d, s) == \A i \in DOMAIN d.src : s.main[i] = d.src[i].main /\ s.anc[i] = d.src[i].anc
Run(d, h, s, e, o) ==
  IF ~Pristine(d, s) THEN
    IF h THEN Complete(d, o) /\ ((\A i \in DOMAIN d.src : ~s.main[i] /\ ~s.anc[i]) => o.status = "ok" /\ Gone(d, o))
    ELSE Faulty(d, o) /\ (o.status = "ok" => Complete(d, o) /\ Gone(d, o))
  ELSE IF Mismatch(d) THEN o.status = "error" /\ Untouched(d, o) /\ Absent(o)
  ELSE IF Present(d) = {} THEN o.status = "ok" /\ Absent(o)
  ELSE IF ~OneDate(d) THEN o.status = "error" /\ Untouched(d, o)
  ELSE /\ o.status = IF e.wrongname THEN "error" ELSE "ok"
       /\ Complete(d, o) /\ Gone(d, o)
Day == Is("day") /\ days' = Append(days, Ev.in) /\ held' = Append(held, FALSE)
       /\ now' = Append(now, [main |-> [i \in DOMAIN Ev.in.src |-> Ev.in.src[i].main], anc |-> [i \in DOMAIN Ev.in.src |-> Ev.in.src[i].anc]])
Merged == Is("merge") /\ LET e == Ev.in o == Ev.out d == days[e.day] IN
  /\ (IF e.fault THEN Faulty(d, o) ELSE Run(d, held[e.day], now[e.day], e, o)) = TRUE
  /\ held' = [held EXCEPT ![e.day] = (held[e.day] \/ (Present(d) # {} /\ ~Mismatch(d) /\ Complete(d, o)))]
  /\ now' = [now EXCEPT ![e.day] = [main |-> o.main, anc |-> o.anc]]
  /\ UNCHANGED days
Next == Day \/ Merged
=============================================================================
