------------------------------ MODULE MC_Flags ------------------------------
(* Model of the quality-control pipeline over a short run of days and one     *)
(* cell: threshold and outlier passes create day files, window and persistence*)
(* passes derive from them, merge and mask follow; passes of different days   *)
(* may run in any order and some days never get a file.                      *)
EXTENDS Flags, Json
CONSTANTS D, Range, Thr, Emit
VARIABLES evidence,   (* day -> "absent" | "seen" | "unseen" : observation evidence of the day *)
          bad,        (* days with an outlier *)
          s1, s2, o1, o2, mg, mk   (* day -> word, -1 while not produced *)
vars == <<evidence, bad, s1, s2, o1, o2, mg, mk>>
Days == 1..D
None == [d \in Days |-> -1]
Init == /\ evidence \in [Days -> {"absent", "seen", "unseen"}] /\ bad \in SUBSET Days
        /\ s1 = None /\ s2 = None /\ o1 = None /\ o2 = None /\ mg = None /\ mk = None
AsFiles(s) == LET S == {d \in Days : s[d] # -1}
                  RECURSIVE Seq0(_)
                  Seq0(d) == IF d > D THEN << >> ELSE (IF d \in S THEN <<[d |-> d, v |-> <<s[d]>>]>> ELSE << >>) \o Seq0(d + 1)
              IN Seq0(1)
Have(d) == evidence[d] # "absent"
AllThresholds == \A d \in Days : Have(d) => s1[d] # -1
AllOutliers == \A d \in Days : Have(d) => o1[d] # -1
Threshold(d) == Have(d) /\ s1[d] = -1 /\ s1' = [s1 EXCEPT ![d] = IF evidence[d] = "seen" THEN 0 ELSE 1] /\ UNCHANGED <<evidence, bad, s2, o1, o2, mg, mk>>
Outlier(d) == Have(d) /\ AllThresholds /\ o1[d] = -1 /\ o1' = [o1 EXCEPT ![d] = IF d \in bad THEN P2[EXTHIGH + 1] ELSE 0] /\ UNCHANGED <<evidence, bad, s1, s2, o2, mg, mk>>
Window(d) == AllThresholds /\ AllOutliers /\ Have(d) /\ s2[d] = -1 /\ s2' = [s2 EXCEPT ![d] = WindowFlags(AsFiles(s1), d, Range, Thr, {DAY})[1]] /\ UNCHANGED <<evidence, bad, s1, o1, o2, mg, mk>>
Persist(d) == s2[d] # -1 /\ o2[d] = -1 /\ o2' = [o2 EXCEPT ![d] = PersistFlags(AsFiles(o1), d, Range, Thr)[1]] /\ UNCHANGED <<evidence, bad, s1, s2, o1, mg, mk>>
Merge(d) == s2[d] # -1 /\ o2[d] # -1 /\ mg[d] = -1 /\ mg' = [mg EXCEPT ![d] = MergeCell(s2[d], o2[d])] /\ UNCHANGED <<evidence, bad, s1, s2, o1, o2, mk>>
Mask(d) == mg[d] # -1 /\ mk[d] = -1 /\ mk' = [mk EXCEPT ![d] = IF Masked(mg[d], DefaultCombos) THEN 1 ELSE 0] /\ UNCHANGED <<evidence, bad, s1, s2, o1, o2, mg>>
(* days are visited in order within a pass to keep the model small, except window and persistence *)
First(d, s) == \A e \in Days : e < d /\ Have(e) => s[e] # -1
Next == \E d \in Days : \/ (First(d, s1) /\ Threshold(d)) \/ (First(d, o1) /\ Outlier(d)) \/ Window(d) \/ Persist(d) \/ Merge(d) \/ Mask(d)
(* each pass changes only its own flags *)
OwnBits == \A d \in Days : /\ s2[d] # -1 => BitSet(s2[d]) \ {PRIORWIN, POSTWIN} = BitSet(s1[d])
                           /\ o2[d] # -1 => BitSet(o2[d]) \ {PERSISTENT} = BitSet(o1[d])
                           /\ mg[d] # -1 => BitSet(mg[d]) = BitSet(s2[d]) \cup BitSet(o2[d])
(* meaning of the flags in terms of the evidence *)
SeenIn(S) == Cardinality({d \in S \cap Days : evidence[d] = "seen"})
Meaning == \A d \in Days :
   /\ s2[d] # -1 => /\ Bit(s2[d], DAY) = (evidence[d] = "unseen")
                    /\ Bit(s2[d], PRIORWIN) = (SeenIn((d - Range)..(d - 1)) < Thr)
                    /\ Bit(s2[d], POSTWIN) = (SeenIn((d + 1)..(d + Range)) < Thr)
   /\ o2[d] # -1 => Bit(o2[d], PERSISTENT) = (Cardinality({e \in (d - Range)..(d + Range) \cap Days : e \in bad /\ Have(e)}) >= Thr)
   /\ mk[d] # -1 => (mk[d] = 1) = (d \in bad)
(* windows only look at neighbours, so a second pass over its own result keeps every flag *)
Stable == \A d \in Days : mg[d] # -1 => MergeCell(mg[d], mg[d]) # -1 /\ (~Bit(mg[d], AREALLOW) => MergeCell(mg[d], mg[d]) = mg[d])
Emitted == (Emit /\ s1 = None) => PrintT("@@SC " \o ToJson([present |-> [d \in Days |-> IF Have(d) THEN 1 ELSE 0], seen |-> [d \in Days |-> IF evidence[d] = "seen" THEN 1 ELSE 0], bad |-> [d \in Days |-> IF d \in bad THEN 1 ELSE 0]]))
=============================================================================
