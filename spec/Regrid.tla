------------------------------- MODULE Regrid -------------------------------
(* Fields on a regular grid from the states of the components.               *)
(* Positions are integers (a unit is a fraction of a degree chosen by the    *)
(* caller); a cell of width s around a centre is sampled at N places:        *)
(*    centre - s/2 + (2k-1) s / 2N,   k = 1 .. N     (s divisible by 2N).    *)
(* Every place has the weight cos(latitude) (a table, in thousandths); the   *)
(* value of a cell is the weighted mean of the values at its places, and     *)
(* cells are in the order of the grid: latitudes outer, longitudes inner.    *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
Sum(f) == SumTo(f, Len(f))
Place(centre, s, N, k) == centre - (s \div 2) + (((2 * k) - 1) * (s \div (2 * N)))
(* what the (toy) model component says about a place: a row of its design matrix *)
Row(c, lat, lon, t) == <<1, lat % 4, (lon + (c * t)) % 5, (((lat * 3) + lon) % 7) - 3>>
Dot(row, x) == Sum([i \in 1 .. Len(row) |-> row[i] * x[i]])
DotAbs(row, x) == Sum([i \in 1 .. Len(row) |-> Abs(row[i]) * x[i]])
(* a grid: lat, lon (centres), dlat, dlon (widths, positive), n, m (places per cell), w (function from latitudes to weights) *)
Cells(g) == Len(g.lat) * Len(g.lon)
LatOf(g, cell) == g.lat[((cell - 1) \div Len(g.lon)) + 1]
LonOf(g, cell) == g.lon[((cell - 1) % Len(g.lon)) + 1]
Places(g, cell) == [q \in 1 .. (g.n * g.m) |->
  <<Place(LatOf(g, cell), g.dlat, g.n, ((q - 1) \div g.m) + 1), Place(LonOf(g, cell), g.dlon, g.m, ((q - 1) % g.m) + 1)>>]
Weight(g, lat) == g.w[CHOOSE i \in 1 .. Len(g.w) : g.w[i].lat = lat].w
TotalWeight(g, cell) == LET p == Places(g, cell) IN Sum([q \in 1 .. Len(p) |-> Weight(g, p[q][1])])
(* weighted sum of the values of a component *)
WeightedSum(g, cell, c, t, x, abs) == LET p == Places(g, cell) IN
  Sum([q \in 1 .. Len(p) |-> Weight(g, p[q][1]) * (IF abs THEN DotAbs(Row(c, p[q][1], p[q][2], t), x) ELSE Dot(Row(c, p[q][1], p[q][2], t), x))])
(* the mean in hundredths, to within Slack (rounding of the weights) *)
Mean100(g, cell, c, t, x, abs) == IF x = <<>> THEN 0 ELSE LET s == WeightedSum(g, cell, c, t, x, abs) IN (100 * s) \div TotalWeight(g, cell)
(* the spread of the values in the cell bounds what the rounding of the weights (half a thousandth each) can do *)
Bound(g, cell, c, t, x) == IF x = <<>> THEN 1 ELSE LET p == Places(g, cell) IN
  3 + ((50 * Len(p) * Sum([i \in 1 .. Len(x) |-> 8 * Abs(x[i])])) \div TotalWeight(g, cell))
(* rows of latitudes are taken in blocks: a block is <<first, last>> *)
BlocksOf(n, b) == LET k == Min2(b, n) IN [i \in 1 .. (((n + k) - 1) \div k) |-> <<((i - 1) * k) + 1, Min2(i * k, n)>>]
RECURSIVE IsqrtB(_, _, _)
IsqrtB(n, lo, hi) == IF lo = hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid * mid <= n THEN IsqrtB(n, mid, hi) ELSE IsqrtB(n, lo, mid - 1)
Isqrt(n) == IsqrtB(n, 0, 46000)
=============================================================================
