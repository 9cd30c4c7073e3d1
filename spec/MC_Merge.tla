------------------------------ MODULE MC_Merge ------------------------------
(* The files of one day while they are merged, in steps of single file       *)
(* operations, with a crash or failed write at any point and further runs.   *)
EXTENDS Merge, TLC, Json
CONSTANTS N, MaxRuns, Emit
Src == 1 .. N
Partial == "partial"
VARIABLES main, anc,          \* sources whose files are there
          mm, ma,             \* merged files: {} absent, {Partial}, or the sources they hold
          pc, todo, sel, runs, sane, first
vars == <<main, anc, mm, ma, pc, todo, sel, runs, sane, first>>
Init == /\ main \in SUBSET Src /\ anc \in SUBSET Src
        /\ mm = {} /\ ma = {} /\ pc = "idle" /\ todo = {} /\ sel = {} /\ runs = 0 /\ sane = TRUE /\ first = [main |-> main, anc |-> anc]
Start == /\ pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
         /\ IF main # anc THEN pc' = "refused" /\ UNCHANGED sel
            ELSE IF main = {} THEN pc' = "nothing" /\ UNCHANGED sel
            ELSE sel' = main /\ pc' = IF Cardinality(main) = 1 THEN "rename_main" ELSE "open_main"
         /\ UNCHANGED <<main, anc, mm, ma, todo, sane, first>>
Open == \/ pc = "open_main" /\ mm' = {Partial} /\ pc' = "close_main" /\ UNCHANGED <<main, anc, ma, todo, sel, runs, sane, first>>
        \/ pc = "open_anc" /\ ma' = {Partial} /\ pc' = "close_anc" /\ UNCHANGED <<main, anc, mm, todo, sel, runs, sane, first>>
Close == \/ pc = "close_main" /\ mm' = sel /\ pc' = "open_anc" /\ UNCHANGED <<main, anc, ma, todo, sel, runs, sane, first>>
         \/ pc = "close_anc" /\ ma' = sel /\ pc' = "remove_main" /\ UNCHANGED <<main, anc, mm, todo, sel, runs, sane, first>>
Remove == \/ pc = "remove_main" /\ \E s \in main : main' = main \ {s} /\ pc' = (IF main = {s} THEN "remove_anc" ELSE pc) /\ UNCHANGED <<anc, mm, ma, todo, sel, runs, sane, first>>
          \/ pc = "remove_anc" /\ \E s \in anc : anc' = anc \ {s} /\ pc' = (IF anc = {s} THEN "done" ELSE pc) /\ UNCHANGED <<main, mm, ma, todo, sel, runs, sane, first>>
Rename == \/ pc = "rename_main" /\ mm' = sel /\ main' = {} /\ pc' = "rename_anc" /\ UNCHANGED <<anc, ma, todo, sel, runs, sane, first>>
          \/ pc = "rename_anc" /\ ma' = sel /\ anc' = {} /\ pc' = "done" /\ UNCHANGED <<main, mm, todo, sel, runs, sane, first>>
(* the process dies or a write fails; or it has ended and is run again *)
Stop == /\ pc # "idle" /\ pc' = "idle" /\ UNCHANGED <<main, anc, mm, ma, todo, sel, runs, sane, first>>
Next == Start \/ Open \/ Close \/ Remove \/ Rename \/ Stop
Spec == Init /\ [][Next]_vars
(* no data is lost: what a source had is in its files or in both complete merged files *)
NoLoss == \A s \in Src : (s \in first.main => s \in main \/ s \in mm) /\ (s \in first.anc => s \in anc \/ s \in ma)
(* sources go only when both merged files are complete (or renamed) *)
After == Cardinality(first.main) > 1 => (main # first.main \/ anc # first.anc => mm = first.main /\ ma = first.main)
Refused == pc = "refused" => (main # anc)
Done == pc = "done" => mm = sel /\ ma = sel /\ main = {} /\ anc = {}
Export == IF Emit /\ runs = 1 /\ pc # "idle" THEN PrintT("@@SC " \o ToJson([n |-> N, main |-> first.main, anc |-> first.anc, at |-> pc])) ELSE TRUE
=============================================================================
