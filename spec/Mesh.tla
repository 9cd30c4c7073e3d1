-------------------------------- MODULE Mesh --------------------------------
(* A closed surface of triangles, each divided again and again into four.     *)
(* A triangle is <<t, path>>: number of the triangle of the base surface and  *)
(* the digits 0..3 of the parts chosen at each level.  A place on the base    *)
(* surface is a set of <<corner, amount>>, the amounts adding up to 2^level,  *)
(* so that places on common sides of base triangles are the same place.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Pow2(n) == 2 ^ n
Half(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2, (a[3] + b[3]) \div 2>>
(* corners of the part d of the triangle with corners c *)
Part(c, d) == CASE d = 0 -> <<c[1], Half(c[1], c[2]), Half(c[1], c[3])>>
                [] d = 1 -> <<Half(c[1], c[2]), c[2], Half(c[2], c[3])>>
                [] d = 2 -> <<Half(c[1], c[3]), Half(c[2], c[3]), c[3]>>
                [] d = 3 -> <<Half(c[2], c[3]), Half(c[1], c[3]), Half(c[1], c[2])>>
Go(c, path) == FoldLeft(Part, c, path)
(* corners within the base triangle, for amounts that add up to 2^n, n >= Len(path) *)
Local(path, n) == LET u == Pow2(n) IN Go(<< <<u, 0, 0>>, <<0, u, 0>>, <<0, 0, u>> >>, path)
Place(base, t, x) == {<<base[t + 1][i], x[i]>> : i \in {j \in 1 .. 3 : x[j] # 0}}
Corners(base, t, path, n) == LET c == Local(path, n) IN [i \in 1 .. 3 |-> Place(base, t, c[i])]
(* a place as amounts of the corners of base triangle t, if it lies there *)
On(base, t, p) == {q[1] : q \in p} \subseteq {base[t + 1][i] : i \in 1 .. 3}
Amount(p, k) == IF \E q \in p : q[1] = k THEN (CHOOSE q \in p : q[1] = k)[2] ELSE 0
Amounts(base, t, p) == [i \in 1 .. 3 |-> Amount(p, base[t + 1][i])]
(* may the place with amounts x be put in part d, and its amounts there *)
Fits(x, d) == CASE d = 0 -> x[1] >= x[2] + x[3] [] d = 1 -> x[2] >= x[1] + x[3] [] d = 2 -> x[3] >= x[1] + x[2]
                [] d = 3 -> x[1] <= x[2] + x[3] /\ x[2] <= x[1] + x[3] /\ x[3] <= x[1] + x[2]
Within(x, d) == CASE d = 0 -> <<(x[1] - x[2]) - x[3], 2 * x[2], 2 * x[3]>> [] d = 1 -> <<2 * x[1], (x[2] - x[1]) - x[3], 2 * x[3]>>
                  [] d = 2 -> <<2 * x[1], 2 * x[2], (x[3] - x[1]) - x[2]>> [] d = 3 -> <<(x[2] + x[3]) - x[1], (x[1] + x[3]) - x[2], (x[1] + x[2]) - x[3]>>
(* amounts after all parts, or <<>> if one does not fit *)
Step(x, d) == IF x = <<>> THEN x ELSE IF Fits(x, d) THEN Within(x, d) ELSE <<>>
Down(x, path) == FoldLeft(Step, x, path) # <<>>
(* is the place in the closed triangle <<t, path>> *)
In(base, t, path, p) == On(base, t, p) /\ Down(Amounts(base, t, p), path)
Sides(c) == {<<c[1], c[2]>>, <<c[2], c[3]>>, <<c[3], c[1]>>}
=============================================================================
