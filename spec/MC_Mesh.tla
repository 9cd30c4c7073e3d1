------------------------------ MODULE MC_Mesh ------------------------------
(* Repeated division of a closed base surface.                                *)
EXTENDS Mesh, TLC, Json
CONSTANTS Depth, First, Emit
VARIABLES level, t, path
vars == <<level, t, path>>
Base == << <<4, 7, 8>>, <<4, 9, 7>>, <<5, 11, 6>>, <<5, 6, 10>>, <<0, 3, 4>>, <<0, 5, 3>>, <<2, 1, 7>>, <<2, 6, 1>>, <<8, 11, 0>>, <<8, 1, 11>>,
           <<9, 3, 10>>, <<9, 10, 2>>, <<8, 0, 4>>, <<11, 5, 0>>, <<4, 3, 9>>, <<5, 10, 3>>, <<7, 1, 8>>, <<6, 11, 1>>, <<7, 9, 2>>, <<6, 2, 10>> >>
Digits == 0 .. 3
Paths(n) == [1 .. n -> Digits]
Tri == 0 .. 19
Init == level = 0 /\ t \in First /\ path = <<>>
Next == level < Depth /\ level' = level + 1 /\ t' = t /\ \E d \in Digits : path' = Append(path, d)
Spec == Init /\ [][Next]_vars
C == Corners(Base, t, path, Depth)
(* parts lie within the whole *)
Nested == \A i \in 1 .. 3 : \A k \in 0 .. Len(path) : In(Base, t, SubSeq(path, 1, k), C[i])
(* the corners of a triangle are together in no other triangle of its level: what is inside has one triangle *)
Alone == \A u \in Tri : \A q \in Paths(level) : (\A i \in 1 .. 3 : In(Base, u, q, C[i])) => u = t /\ q = path
(* every side belongs to exactly one other triangle, which goes through it the other way *)
Closed == \A s \in Sides(C) : Cardinality({x \in Tri \X Paths(level) : <<s[2], s[1]>> \in Sides(Corners(Base, x[1], x[2], Depth))}) = 1
          /\ Cardinality({x \in Tri \X Paths(level) : s \in Sides(Corners(Base, x[1], x[2], Depth))}) = 1
(* being at a corner of a triangle of this level is being inside exactly the triangles that have the corner *)
Touch == \A u \in Tri : \A q \in Paths(level) : \A i \in 1 .. 3 : In(Base, u, q, C[i]) = (C[i] \in {Corners(Base, u, q, Depth)[j] : j \in 1 .. 3})
(* every place has somewhere to go at every level *)
Finds == \A i \in 1 .. 3 : \A k \in 0 .. Len(path) : \E q \in Paths(k) : In(Base, t, q, C[i])
Count == level = 0 => LET all == Tri \X Paths(Depth) pts == UNION {{Corners(Base, x[1], x[2], Depth)[j] : j \in 1 .. 3} : x \in all}
         IN Cardinality(pts) = (10 * Pow2(2 * Depth)) + 2
Export == IF Emit /\ level = Depth THEN PrintT("@@SC " \o ToJson([t |-> t, path |-> path])) ELSE TRUE
=============================================================================
