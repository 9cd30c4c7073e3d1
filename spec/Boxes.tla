------------------------------- MODULE Boxes -------------------------------
(* Statistics of points in the boxes of a grid, kept apart for every source   *)
(* and quantity.  A point is [loc, day, masked, v, u]: where, when, whether   *)
(* it is left out, value and uncertainty.  Weights are W / u.                 *)
EXTENDS Integers, Sequences, FiniteSets
W == 40
Place(a, x) == (x - a.start) \div a.inc
Inside(a, x) == Place(a, x) \in 0 .. a.n - 1
May(a, x) == ~Inside(a, x) /\ ~(a.wrap /\ Place(a, x) = a.n)
Must(a, x) == ~Inside(a, x) /\ ~a.wrap
Box(g, lat, lon) == ((Place(g.lat, lat) % g.lat.n) * g.lon.n) + (Place(g.lon, lon) % g.lon.n)
(* statistics of a sequence of <<value, uncertainty>> *)
Of(s) == LET w[i \in 0 .. Len(s)] == IF i = 0 THEN 0 ELSE w[i - 1] + (s[i][1] * (W \div s[i][2]))
             q[i \in 0 .. Len(s)] == IF i = 0 THEN 0 ELSE q[i - 1] + (W \div s[i][2])
             vs == {s[i][1] : i \in DOMAIN s} us == {s[i][2] : i \in DOMAIN s}
             lo(x) == CHOOSE m \in x : \A y \in x : m <= y
             hi(x) == CHOOSE m \in x : \A y \in x : m >= y
         IN [count |-> Len(s), wsum |-> w[Len(s)], psum |-> q[Len(s)], min |-> lo(vs), max |-> hi(vs), umin |-> lo(us), umax |-> hi(us)]
(* two parts together *)
Less(a, b) == IF a < b THEN a ELSE b
More(a, b) == IF a > b THEN a ELSE b
Join(p, q) == [count |-> p.count + q.count, wsum |-> p.wsum + q.wsum, psum |-> p.psum + q.psum, min |-> Less(p.min, q.min), max |-> More(p.max, q.max), umin |-> Less(p.umin, q.umin), umax |-> More(p.umax, q.umax)]
(* points of a batch that belong to box b *)
Picked(pts, day, at(_), b) == SelectSeq(pts, LAMBDA p : ~p.masked /\ p.day = day /\ at(p) = b)
Pairs(pts) == [i \in DOMAIN pts |-> <<pts[i].v, pts[i].u>>]
=============================================================================
