-------------------------------- MODULE Ice --------------------------------
(* Air temperatures over ice.  A hemisphere is a grid of cells (row by row),  *)
(* each with the skin temperature of the day (mean t, minimum lo, maximum hi, *)
(* quarters of a kelvin), its deviation sd (hundredths), the kind of land,    *)
(* the concentration of sea ice (hundredths), temperature and number of       *)
(* observations in eight parts of the day, and three uncertainties            *)
(* (quarters).  MISS stands for a missing number.                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
MISS == -1
Kinds == {"tas", "tasmin", "tasmax"}
DayParts == {3, 4, 5, 6}
NightParts == {1, 2, 7, 8}
AllParts == 1..8
Reach == 2
Least == 2
Val(k, c) == IF k = "tas" THEN c.t ELSE IF k = "tasmin" THEN c.lo ELSE c.hi
(* --- kinds of ice --- *)
LandIce(c) == c.land \in {1, 4}
SeaIce(c) == c.conc # MISS /\ c.conc >= 30
Part(c) == IF LandIce(c) THEN "LandIce" ELSE IF SeaIce(c) THEN "SeaIce" ELSE "none"
(* --- quality control of one cell --- *)
Steady(c) == c.sd = MISS \/ c.sd <= 707
Cold(c) == c.t = MISS \/ 25 * c.t <= 27815
Seen(c, S) == LET K == {b \in S : c.n[b] # MISS} IN K # {} /\ \E b \in K : c.n[b] > 0
AbsI(x) == IF x < 0 THEN -x ELSE x
Far(x, c, S, lim) == LET B == {b \in S : c.bins[b] # MISS} m == Cardinality(B) IN x # MISS /\ m > 0 /\ AbsI((x * m) - MapThenSumSet(LAMBDA b : c.bins[b], B)) > 4 * lim * m
Passes(k, c) == Steady(c) /\ Cold(c) /\
    (CASE k = "tas" -> Seen(c, DayParts) /\ Seen(c, NightParts) /\ ~Far(c.t, c, AllParts, 10)
       [] k = "tasmin" -> Seen(c, NightParts)
       [] OTHER -> Seen(c, DayParts) /\ ~Far(c.hi, c, DayParts, 20))
(* --- cloud: much colder than the ice of the same kind around --- *)
At(h, i, j) == h.cell[((i - 1) * h.cols) + j]
Counts(k, g, c) == Val(k, c) # MISS /\ Passes(k, c) /\ (IF g = "LandIce" THEN LandIce(c) ELSE SeaIce(c))
(* which cells count for which kind of ice *)
Marks(h, k) == TLCEval([p \in DOMAIN h.cell |-> [LandIce |-> Counts(k, "LandIce", h.cell[p]), SeaIce |-> Counts(k, "SeaIce", h.cell[p])]])
Mark(h, m, g, i, j) == m[((i - 1) * h.cols) + j][g]
Inner(h, i, j) == i > Reach /\ i <= h.rows - Reach /\ j > Reach /\ j <= h.cols - Reach
Round(h, i, j) == {p \in ((i - Reach)..(i + Reach)) \X ((j - Reach)..(j + Reach)) : p # <<i, j>>}
Colder(h, m, k, g, i, j) == LET R == {p \in Round(h, i, j) : Mark(h, m, g, p[1], p[2])} s == Cardinality(R)
                                x == MapThenSumSet(LAMBDA p : Val(k, At(h, p[1], p[2])), R) - (s * Val(k, At(h, i, j))) IN
                            IF s < Least THEN -1 ELSE x - (40 * s)          \* positive: more than 10 K below the mean around
CloudIn(h, m, k, g, i, j) == Inner(h, i, j) /\ Mark(h, m, g, i, j) /\ Colder(h, m, k, g, i, j) > 0
CloudEdge(h, m, k, i, j) == Inner(h, i, j) /\ \E g \in {"LandIce", "SeaIce"} : Mark(h, m, g, i, j) /\ Colder(h, m, k, g, i, j) = 0
Cloudy(h, m, k, i, j) == \E g \in {"LandIce", "SeaIce"} : CloudIn(h, m, k, g, i, j)
Controlled(h, m, k, i, j) == LET c == At(h, i, j) IN Val(k, c) # MISS /\ Part(c) # "none" /\ Passes(k, c) /\ ~Cloudy(h, m, k, i, j)
Known(c) == c.u # MISS /\ c.s # MISS /\ c.w # MISS
Valid(h, m, k, i, j) == Controlled(h, m, k, i, j) /\ Known(At(h, i, j))
(* --- the model: coefficients (quarters; the second in eighths), season (cosine, sine in 1/10000) --- *)
Air(t, co, season) == ((co[2] * ((2500 * t) - 2731500)) \div 8) + (2500 * co[1]) + (((co[3] * season[1]) + (co[4] * season[2])) \div 4)
Sampling(hem, part, k) == CASE hem = "nh" /\ part = "LandIce" -> (IF k = "tas" THEN 16 ELSE IF k = "tasmin" THEN 22 ELSE 21)
                            [] hem = "nh" /\ part = "SeaIce" -> (IF k = "tas" THEN 0 ELSE IF k = "tasmin" THEN 29 ELSE 20)
                            [] hem = "sh" /\ part = "LandIce" -> (IF k = "tas" THEN 16 ELSE IF k = "tasmin" THEN 15 ELSE 38)
                            [] OTHER -> (IF k = "tas" THEN 17 ELSE IF k = "tasmin" THEN 57 ELSE 29)
Relation(part, k) == IF part = "LandIce" THEN (IF k = "tas" THEN 15 ELSE IF k = "tasmin" THEN 18 ELSE 20)
                     ELSE (IF k = "tas" THEN 17 ELSE IF k = "tasmin" THEN 18 ELSE 21)
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
Sq(x) == x * x
IsRoot(o, x, tol) == o >= 0 /\ x <= Sq(o + tol) /\ (o <= tol \/ Sq(o - tol) <= x)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
(* uncertainties in mK: o = <<total, without cloud, random, synoptic, large scale, cloud>> *)
Uncertain(o, hem, part, k, c, c1, tol) ==
    LET ru == Root(Sq(250 * c.u) + Sq(100 * Sampling(hem, part, k)), 0, 46000) IN
    /\ Near(o[3], (ru * c1) \div 8, tol + (c1 \div 8) + 1)
    /\ IsRoot(o[4], Sq((250 * c.s * c1) \div 8) + Sq(100 * Relation(part, k)), tol + 1)
    /\ Near(o[5], 25 * c1, tol)
    /\ Near(o[6], (((250 * c.w) - 200 + (IF k = "tasmin" THEN 2000 ELSE 0)) * c1) \div 8, tol + 1)
    /\ IsRoot(o[2], Sq(o[3]) + Sq(o[4]) + Sq(o[5]), 2 * tol + 2)
    /\ IsRoot(o[1], Sq(o[3]) + Sq(o[4]) + Sq(o[5]) + Sq(o[6]), 2 * tol + 2)
Cell(q, h, m, hem, k, i, j, coef, season, tol, utol) ==
    LET c == At(h, i, j) ok == Len(q) > 0 IN
    /\ ok = Valid(h, m, k, i, j) \/ CloudEdge(h, m, k, i, j)
    /\ ok => LET p == Part(c) co == coef[hem][p][k] IN
         Len(q) = 7 /\ Near(q[1], Air(Val(k, c), co, season), tol) /\ Uncertain(Tail(q), hem, p, k, c, co[2], utol)
(* --- both hemispheres --- *)
Hem(h) == IF h.lat[1] > 0 THEN "nh" ELSE "sh"
Even(q, r) == \A i \in 1..(Len(q) - 1) : q[i + 1] - q[i] = r
Step(h) == h.lat[2] - h.lat[1]
Joinable(s, n) == Hem(s) = "sh" /\ Hem(n) = "nh" /\ s.day = n.day /\ s.cols = n.cols /\ Step(s) > 0 /\ n.lat[1] > s.lat[s.rows] /\ Even(s.lat, Step(s)) /\ Even(n.lat, Step(s))
Rows(s, n) == ((n.lat[n.rows] - s.lat[1]) \div Step(s)) + 1
First(s, n) == (n.lat[1] - s.lat[1]) \div Step(s)          \* rows before the first of the north
Global(q, s, n, k, coef, season, tol, utol) ==
    /\ Len(q) = Rows(s, n) * s.cols
    /\ LET ms == Marks(s, k) mn == Marks(n, k) IN \A i \in 1..Rows(s, n), j \in 1..s.cols : LET x == q[((i - 1) * s.cols) + j] IN
         IF i <= s.rows THEN Cell(x, s, ms, "sh", k, i, j, coef, season, tol, utol)
         ELSE IF i > First(s, n) THEN Cell(x, n, mn, "nh", k, i - First(s, n), j, coef, season, tol, utol)
         ELSE x = << >>
=============================================================================
