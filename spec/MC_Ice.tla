------------------------------- MODULE MC_Ice -------------------------------
(* A cell and two of its neighbours, in a grid that is otherwise open water:  *)
(* values only over ice that was observed, and independent of ice of another  *)
(* kind around.                                                               *)
EXTENDS Ice, Json
CONSTANTS T, NT, Lands, Concs, Every, Side
VARIABLES mid, a, b, put
Base == [t |-> MISS, lo |-> MISS, hi |-> MISS, sd |-> MISS, land |-> 2, conc |-> 0, bins |-> [x \in 1..8 |-> MISS], n |-> [x \in 1..8 |-> 1], u |-> 1, s |-> 1, w |-> 1]
Make(x) == [Base EXCEPT !.t = x.t, !.lo = IF x.t = MISS THEN MISS ELSE x.t - 8, !.hi = x.t, !.land = x.land, !.conc = x.conc,
            !.n = [p \in 1..8 |-> IF p \in DayParts THEN x.d ELSE x.g], !.bins = [p \in 1..8 |-> IF p = 3 THEN x.bin ELSE MISS]]
Mids == [t : T, land : Lands, conc : Concs, d : {0, 1}, g : {0, 1}, bin : {MISS, 1040}]
Nbrs == [t : NT, land : {1, 2}, conc : {29, 30}, d : {1}, g : {1}, bin : {MISS}]
Empty == [t |-> MISS, land |-> 2, conc |-> 29, d |-> 1, g |-> 1, bin |-> MISS]
Init == mid \in Mids /\ a = Empty /\ b = Empty /\ put = FALSE
Next == ~put /\ put' = TRUE /\ a' \in Nbrs /\ b' \in Nbrs /\ mid' = mid
At3 == (Side + 1) \div 2
Grid(m, x, y) == [rows |-> Side, cols |-> Side, cell |-> [p \in 1..(Side * Side) |-> IF p = ((At3 - 1) * Side) + At3 THEN Make(m) ELSE IF p = (2 * Side) + 1 THEN Make(x) ELSE IF p = Side - 1 THEN Make(y) ELSE Base]]
G == Grid(mid, a, b)
IsOk(g, k) == Valid(g, Marks(g, k), k, At3, At3)
Ok(k) == IsOk(G, k)
CloudAt(k, i, j) == Cloudy(G, Marks(G, k), k, i, j)
OnlyObservedIce == \A k \in Kinds : Ok(k) => mid.t # MISS /\ (mid.land \in {1, 4} \/ (mid.conc >= 30))
DayAndNight == /\ Ok("tas") => mid.d > 0 /\ mid.g > 0
               /\ Ok("tasmin") => mid.g > 0
               /\ Ok("tasmax") => mid.d > 0
NotHot == mid.t > 1112 => \A k \in Kinds : ~Ok(k)
(* fewer than two neighbours of the same kind: no cloud can be seen *)
Lonely == \A k \in Kinds : Cardinality({x \in {1, 2} : LET c == Make(IF x = 1 THEN a ELSE b) IN \E g \in {"LandIce", "SeaIce"} : Counts(k, g, Make(mid)) /\ Counts(k, g, c)}) < 2 => ~CloudAt(k, At3, At3)
(* what happens over ice of another kind does not matter *)
Others == \A k \in Kinds : (\A g \in {"LandIce", "SeaIce"} : ~(Counts(k, g, Make(mid)) /\ Counts(k, g, Make(a)))) =>
              Ok(k) = IsOk(Grid(mid, [a EXCEPT !.t = MISS], b), k)
(* cells at the border of the grid are never taken for cloud *)
Border == \A k \in Kinds : ~CloudAt(k, 3, 1) /\ ~CloudAt(k, 1, Side - 1)
(* warmer surroundings can only remove a cell, colder ones only keep it *)
Warmer == \A k \in Kinds : LET w == [a EXCEPT !.t = @ + 4] IN
              (a.t # MISS /\ ~Ok(k) /\ Passes(k, Make(w))) => ~IsOk(Grid(mid, w, b), k)
TSmall == {MISS, 1000, 1040, 1113}
NTSmall == {MISS, 1040, 1112}
CSmall == {MISS, 29, 30}
TBig == {MISS, 1000, 1001, 1040, 1080, 1112, 1113}
NTBig == {MISS, 1040, 1041, 1112, 1113}
Hash == (7 * mid.t) + (13 * mid.land) + (17 * mid.conc) + (3 * mid.d) + (5 * mid.g) + (11 * a.t) + (19 * a.land) + (23 * a.conc) + (29 * b.t) + (31 * b.land) + (37 * b.conc) + mid.bin
Emitted == (put /\ Every > 0 /\ Hash % Every = 0) => PrintT("@@SC " \o ToJson([mid |-> mid, a |-> a, b |-> b]))
=============================================================================
