------------------------------ MODULE MC_Boxes ------------------------------
(* Batches of points added in any order; statistics kept by joining batches   *)
(* are those of all points together, and no source sees those of another.     *)
EXTENDS Boxes, TLC, Json
CONSTANTS MaxBatches, MaxPoints, Emit
VARIABLES acc, all, mean, log
vars == <<acc, all, mean, log>>
Keys == {"a", "b"}
B == 0 .. 1
Pt(loc, day, masked, v, u) == [loc |-> loc, day |-> day, masked |-> masked, v |-> v, u |-> u]
Points == {Pt(0, 1, FALSE, 3, 1), Pt(0, 1, FALSE, -2, 4), Pt(1, 1, FALSE, 5, 2), Pt(1, 2, FALSE, 9, 1), Pt(0, 1, TRUE, 8, 1), Pt(1, 1, FALSE, 1, 5)}
Lists == UNION {[1 .. n -> Points] : n \in 0 .. MaxPoints}
At(p) == p.loc
Init == acc = [k \in Keys |-> [b \in B |-> {}]] /\ all = [k \in Keys |-> <<>>] /\ mean = [k \in Keys |-> {}] /\ log = <<>>
Put(old, new) == IF new = <<>> THEN old ELSE IF old = {} THEN {Of(new)} ELSE {Join(CHOOSE o \in old : TRUE, Of(new))}
Add(k, pts) == /\ Len(log) < MaxBatches
  /\ acc' = [acc EXCEPT ![k] = [b \in B |-> Put(acc[k][b], Pairs(Picked(pts, 1, At, b)))]]
  /\ all' = [all EXCEPT ![k] = @ \o pts] /\ mean' = mean /\ log' = Append(log, [k |-> k, pts |-> pts])
Mean(k) == all[k] # <<>> /\ mean' = [mean EXCEPT ![k] = {acc[k]}] /\ UNCHANGED <<acc, all, log>>
Next == \E k \in Keys : Mean(k) \/ \E pts \in Lists : Add(k, pts)
Spec == Init /\ [][Next]_vars
Together == \A k \in Keys, b \in B : LET p == Pairs(Picked(all[k], 1, At, b)) IN IF p = <<>> THEN acc[k][b] = {} ELSE acc[k][b] = {Of(p)}
Apart == \A k \in Keys : LET mine == SelectSeq(log, LAMBDA e : e.k = k) IN Len(mine) = 0 => acc[k] = [b \in B |-> {}]
Between == \A k \in Keys, b \in B : \A s \in acc[k][b] : s.min <= s.max /\ s.umin <= s.umax /\ s.count >= 1 /\ s.min * s.psum <= s.wsum /\ s.wsum <= s.max * s.psum
Export == IF Emit /\ Len(log) = MaxBatches /\ mean = [k \in Keys |-> {}] THEN PrintT("@@SC " \o ToJson([log |-> log])) ELSE TRUE
=============================================================================
