------------------------------ MODULE MC_Views ------------------------------
(* All regions of a surface divided Level times, chosen one after the other;  *)
(* at every point the chosen regions that have it are counted.                *)
EXTENDS Views, TLC, Json
CONSTANTS Level, Length, Seconds, Emit
VARIABLES chosen, count, sum
vars == <<chosen, count, sum>>
Base == << <<4, 7, 8>>, <<4, 9, 7>>, <<5, 11, 6>>, <<5, 6, 10>>, <<0, 3, 4>>, <<0, 5, 3>>, <<2, 1, 7>>, <<2, 6, 1>>, <<8, 11, 0>>, <<8, 1, 11>>,
           <<9, 3, 10>>, <<9, 10, 2>>, <<8, 0, 4>>, <<11, 5, 0>>, <<4, 3, 9>>, <<5, 10, 3>>, <<7, 1, 8>>, <<6, 11, 1>>, <<7, 9, 2>>, <<6, 2, 10>> >>
Ids == [i \in 1 .. 20 * Pow2(2 * Level) |-> Ident(i - 1, Level)]
Points == UNION {CornerSet(Base, Ids[i], Level) : i \in DOMAIN Ids}
Kinds == {[kind |-> k, at |-> a, index |-> i] : k \in {"super", "local"}, a \in 0 .. Level, i \in 0 .. (20 * Pow2(2 * Level)) - 1}
Valid == {v \in Kinds : v.index < 20 * Pow2(2 * v.at)} \cup {[kind |-> "global", at |-> 0, index |-> 0]}
Later == {v \in Valid : v.index \in Seconds}
Has(v) == UNION {CornerSet(Base, Ids[i], Level) : i \in Active(Base, v, Ids)}
Value(n) == Pow2(n % 3)
Init == chosen = <<>> /\ count = [p \in Points |-> 0] /\ sum = [p \in Points |-> 0]
Next == /\ Len(chosen) < Length
        /\ \E v \in (IF chosen = <<>> THEN Valid ELSE Later) : \E h \in {Has(v)} :
             /\ chosen' = Append(chosen, v)
             /\ count' = [p \in Points |-> count[p] + (IF p \in h THEN 1 ELSE 0)]
             /\ sum' = [p \in Points |-> sum[p] + (IF p \in h THEN Value(Len(chosen)) ELSE 0)]
Spec == Init /\ [][Next]_vars
Newest == chosen[Len(chosen)]
Mine == Active(Base, Newest, Ids)
(* a region of a triangle has exactly its parts, whose number follows from the levels *)
Parts == chosen # <<>> /\ Newest.kind = "super" => Cardinality(Mine) = Pow2(2 * (Level - Newest.at))
(* a neighbourhood has the triangle itself and everything around each of its corners *)
Around == chosen # <<>> /\ Newest.kind = "local" =>
  LET c == CornerSet(Base, Ident(Newest.index, Newest.at), Newest.at) IN
  /\ Active(Base, [Newest EXCEPT !.kind = "super"], Ids) \subseteq Mine
  /\ (\A p \in c : LET q == {<<x[1], x[2] * Pow2(Level - Newest.at)>> : x \in p} IN \A i \in DOMAIN Ids : q \in CornerSet(Base, Ids[i], Level) => i \in Mine)
Whole == chosen # <<>> /\ Newest.kind = "global" => Mine = DOMAIN Ids
(* the regions of the triangles of one level divide the surface *)
Partition == chosen = <<>> => \A a \in 0 .. Level : \A i \in DOMAIN Ids : Cardinality({k \in 0 .. (20 * Pow2(2 * a)) - 1 : i \in Active(Base, [kind |-> "super", at |-> a, index |-> k], Ids)}) = 1
(* means of what the regions say lie between the least and the greatest of them *)
Means == \A p \in Points : count[p] <= Len(chosen) /\ sum[p] >= count[p] /\ sum[p] <= 4 * count[p]
Export == IF Emit /\ chosen # <<>> THEN PrintT("@@SC " \o ToJson([level |-> Level, views |-> chosen])) ELSE TRUE
=============================================================================
