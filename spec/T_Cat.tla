------------------------------- MODULE T_Cat -------------------------------
(* Trace specification: building, updating and running a catalogue.           *)
EXTENDS Catalogue, TraceBase
VARIABLES files,     (* directory -> set of file names below it *)
          code,      (* version of the code now: [svn, rec] *)
          cat,       (* [ex, ds, ops, id] *)
          ids        (* number of identities handed out so far *)
NoCat == [ex |-> FALSE, ds |-> <<>>, ops |-> <<>>, id |-> 0]
Init == TraceInit /\ files = [x \in {} |-> {}] /\ code = [svn |-> "", rec |-> ""] /\ cat = NoCat /\ ids = 0
Files == /\ Is("files")
         /\ files' = [d \in {Ev.in.dirs[i].path : i \in 1..Len(Ev.in.dirs)} |-> Rng(Ev.in.dirs[CHOOSE i \in 1..Len(Ev.in.dirs) : Ev.in.dirs[i].path = d].names)]
         /\ UNCHANGED <<code, cat, ids>>
Code == Is("code") /\ code' = Ev.in /\ UNCHANGED <<files, cat, ids>>
Unclean == code.svn = "mixed"
Tool == (IF Unclean THEN "U" ELSE code.svn) \o "/" \o code.rec
Below(d) == IF d \in DOMAIN files THEN files[d] ELSE {}
Strip(d) == IF EndsSlash(d) THEN SubSeq(d, 1, Len(d) - 1) ELSE d
Old == IF Ev.in.mode = "update" THEN cat ELSE NoCat
ND == NewDatasets(Ev.in.desc, Ev.in.filter)
Expected(k, j) == EntriesFor(ND[k].subsets[j], Below(Strip(ND[k].path)))
Allowed == /\ ~Ev.in.bad
           /\ cat.ex => Ev.in.mode # "new"
           /\ Ev.in.mode = "update" => cat.ex
           /\ Unclean => Ev.in.allow
(* the listing of the new data sets as observed, in any order *)
Position(k) == Len(Old.ds) + k
Observed(k) == [j \in 1..Len(ND[k].subsets) |-> Ev.out.ds[Position(k)].subsets[j]]
ListingOK == /\ Len(Ev.out.ds) >= Len(Old.ds) + Len(ND)
             /\ \A k \in 1..Len(ND) : /\ Len(Ev.out.ds[Position(k)].subsets) = Len(ND[k].subsets)
                                      /\ \A j \in 1..Len(ND[k].subsets) : Unique(Observed(k)[j]) /\ Rng(Observed(k)[j]) = Expected(k, j)
AnyOrder(k) == [j \in 1..Len(ND[k].subsets) |-> SetSeq(Expected(k, j))]
Shown(ds) == [k \in 1..Len(ds) |-> [name |-> ds[k].name, path |-> ds[k].path, subsets |-> [j \in 1..Len(ds[k].subsets) |-> ds[k].subsets[j].entries]]]
ShownOps(ops) == [k \in 1..Len(ops) |-> [name |-> ops[k].name, target |-> ops[k].target, count |-> Len(ops[k].runs)]]
Succeeded ==
  /\ Ev.out.ok /\ Allowed /\ ListingOK
  /\ LET r == Build(Old, Ev.in.desc, Ev.in.filter, Ev.in.pathdefault, Tool, [k \in 1..Len(ND) |-> Observed(k)])
     IN /\ r.ok
        /\ Ev.out.ds = Shown(r.ds)
        /\ Ev.out.ops = ShownOps(r.ops)
        /\ Ev.out.id > ids
        /\ cat' = [ex |-> TRUE, ds |-> r.ds, ops |-> r.ops, id |-> Ev.out.id]
        /\ ids' = Ev.out.id
Refused ==
  /\ ~Ev.out.ok
  /\ Allowed => ~Build(Old, Ev.in.desc, Ev.in.filter, Ev.in.pathdefault, Tool, [k \in 1..Len(ND) |-> AnyOrder(k)]).ok
  /\ Ev.out.same
  /\ UNCHANGED <<cat, ids>>
BuildEv == Is("build") /\ (Succeeded \/ Refused) /\ UNCHANGED <<files, code>>
(* the process was killed, or could not write, somewhere during the build: all or nothing *)
CrashBuild == /\ Is("crashbuild")
              /\ \/ Ev.out.same /\ UNCHANGED <<cat, ids>>
                 \/ ~Ev.out.same /\ Succeeded
              /\ UNCHANGED <<files, code>>

Known(q) == Hits(cat.ops, q) = 1
Runs(q) == Named(cat.ops, q).runs
Count == /\ Is("count") /\ UNCHANGED <<files, code, cat, ids>>
         /\ LET h == Hits(cat.ops, Ev.in.q) IN
            \/ Ev.out.ok /\ h <= 1 /\ Ev.out.n = (IF h = 1 THEN Batches(Len(Runs(Ev.in.q)), Ev.in.size) ELSE 0)
            \/ ~Ev.out.ok /\ (h > 1 \/ (h = 0 /\ cat.ops = <<>>))
(* the generated suite covers cycle points 0..last, each with indices 0..max *)
Suite == /\ Is("suite") /\ UNCHANGED <<files, code, cat, ids>>
         /\ Known(Ev.in.q)
         /\ LET n == Batches(Len(Runs(Ev.in.q)), Ev.in.size)
            IN Ev.out = [ops |-> Len(Runs(Ev.in.q)), first |-> 0, points |-> n, last |-> n - 1, all |-> n - 1, max |-> Ev.in.size - 1, size |-> Ev.in.size]

MayRun(allow) == (Unclean => allow)
Matches(q, allow) == allow \/ Named(cat.ops, q).tool = Tool
(* index of the run asked for, -1 if the request is not well formed *)
RunIndex == IF Ev.in.size > 0 THEN (IF Ev.in.batch < 0 THEN -1 ELSE Ev.in.batch * Ev.in.size + Ev.in.index)
            ELSE IF Ev.in.batch > 0 THEN -1 ELSE Ev.in.index
Run == /\ Is("run") /\ UNCHANGED <<files, code, cat, ids>>
       /\ LET i == RunIndex
              fine == Known(Ev.in.q) /\ i >= 0 /\ i < Len(Runs(Ev.in.q)) /\ MayRun(Ev.in.allow) /\ (Ev.in.justlist \/ Matches(Ev.in.q, Ev.in.allow))
          IN /\ Ev.out.ok = fine
             /\ IF fine /\ ~Ev.in.justlist
                THEN Len(Ev.out.calls) = 1 /\ Ev.out.calls[1].target = Named(cat.ops, Ev.in.q).target /\ Called(Runs(Ev.in.q)[i + 1], Ev.out.calls[1].args)
                ELSE Ev.out.calls = <<>>
(* several runs of a batch, whose results are handed to one function *)
Multi == /\ Is("multi") /\ UNCHANGED <<files, code, cat, ids>>
         /\ LET can == Ev.in.size > 0 /\ Known(Ev.in.q) /\ MayRun(Ev.in.allow) /\ Matches(Ev.in.q, Ev.in.allow)
                n == IF ~can THEN 0 ELSE LET left == Len(Runs(Ev.in.q)) - Ev.in.batch * Ev.in.size IN IF left < 0 THEN 0 ELSE IF left > Ev.in.size THEN Ev.in.size ELSE left
            IN /\ Ev.out.ok = (can /\ n = Ev.in.size)
               /\ Len(Ev.out.calls) = n
               /\ \A k \in 1..n : Ev.out.calls[k].target = Named(cat.ops, Ev.in.q).target /\ Called(Runs(Ev.in.q)[Ev.in.batch * Ev.in.size + k], Ev.out.calls[k].args)
               /\ Ev.out.outer = (IF Ev.out.ok /\ ~Ev.in.justlist THEN <<[k \in 1..n |-> Ev.out.calls[k].args]>> ELSE <<>>)
Next == Files \/ Code \/ BuildEv \/ CrashBuild \/ Count \/ Suite \/ Run \/ Multi
=============================================================================
