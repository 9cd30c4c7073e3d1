----------------------------- MODULE MC_Regrid -----------------------------
(* The projector as a machine: a component and a time may be changed with or *)
(* without keeping the projection, which is a matrix for one component, one  *)
(* time; a state is read when the component is set.                          *)
EXTENDS Regrid, TLC, Json
CONSTANTS Comps, Times, Depth, MaxLat, Emit
VARIABLES comp, time, des, st, kept, log
vars == <<comp, time, des, st, kept, log>>
None == <<>>
Init == comp = 0 /\ time \in Times /\ des = None /\ st = None /\ kept = FALSE /\ log = <<>>
Can == Len(log) < Depth
SetC(c, k) == Can /\ comp' = c /\ st' = <<c, time>> /\ des' = (IF k THEN des ELSE None) /\ kept' = (k /\ des # None /\ (kept \/ c # des[1] \/ time # des[2]))
              /\ log' = Append(log, [a |-> "set", c |-> c, t |-> 0, keep |-> k]) /\ UNCHANGED time
SetT(t, k) == Can /\ time' = t /\ des' = (IF k THEN des ELSE None) /\ kept' = (k /\ des # None /\ (kept \/ t # des[2]))
              /\ log' = Append(log, [a |-> "time", c |-> 0, t |-> t, keep |-> k]) /\ UNCHANGED <<comp, st>>
Eval == Can /\ comp # 0 /\ des' = <<comp, time>> /\ kept' = FALSE /\ log' = Append(log, [a |-> "eval", c |-> 0, t |-> 0, keep |-> FALSE]) /\ UNCHANGED <<comp, time, st>>
(* saved and loaded again: the projection stays, the states do not *)
Load == Can /\ st' = None /\ log' = Append(log, [a |-> "load", c |-> 0, t |-> 0, keep |-> FALSE]) /\ UNCHANGED <<comp, time, des, kept>>
Next == \/ \E c \in Comps, k \in BOOLEAN : SetC(c, k)
        \/ \E t \in Times, k \in BOOLEAN : SetT(t, k)
        \/ Eval \/ Load
Spec == Init /\ [][Next]_vars
(* unless asked to keep it, no projection outlives its component and time *)
Fresh == des = None \/ kept \/ des = <<comp, time>>
(* a state that is there was read for the component in use *)
OfComponent == st = None \/ st[1] = comp
(* blocks of latitudes cover all of them once, in order *)
Blocks == \A n \in 1 .. MaxLat : \A b \in 1 .. (MaxLat + 2) : LET B == BlocksOf(n, b) IN
  /\ B[1][1] = 1 /\ B[Len(B)][2] = n
  /\ \A i \in 1 .. Len(B) : B[i][1] <= B[i][2] /\ (i > 1 => B[i][1] = B[i - 1][2] + 1)
(* places of a cell lie inside it, evenly, symmetric about the centre, and those of neighbouring cells interleave *)
Inside == \A N \in 1 .. 3 : \A k \in 1 .. N : LET s == 12 IN
  /\ Place(0, s, N, k) > -(s \div 2) /\ Place(0, s, N, k) < (s \div 2)
  /\ Place(0, s, N, k) = -Place(0, s, N, (N + 1) - k)
  /\ (k > 1 => Place(0, s, N, k) - Place(0, s, N, k - 1) = s \div N)
  /\ Place(s, s, N, 1) - Place(0, s, N, N) = s \div N
Export == IF Emit /\ Len(log) >= 2 /\ des # None THEN PrintT("@@SC " \o ToJson([log |-> log])) ELSE TRUE
Once == IF log = <<>> THEN Blocks /\ Inside ELSE TRUE
=============================================================================
