------------------------------ MODULE Sources ------------------------------
(* What the readers of observations deliver from a file.                     *)
(* Temperatures are in half millikelvin above 273.15 K, uncertainties in     *)
(* tenths of a millikelvin, heights in metres, places are numbers.           *)
EXTENDS Integers, Sequences, FiniteSets
MISS == -99999
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
(* u is the root of a sum of squares s (all small enough for 32 bits) *)
RootOf(u, s) == u >= 0 /\ (IF u > 2 THEN (u - 2) * (u - 2) <= s ELSE TRUE) /\ s <= (u + 2) * (u + 2)

(* --- reference height ---------------------------------------------------- *)
(* a square map of n by n nodes, continued by one node on every side: round   *)
(* the globe in longitude, by the mean of the continued row in latitude.      *)
(* positions count quarters of the spacing from the added corner node         *)
RECURSIVE Total(_)
Total(q) == IF q = << >> THEN 0 ELSE Head(q) + Total(Tail(q))
Ext(m, i, j) == LET n == Len(m) r == IF i = 0 THEN 1 ELSE IF i = n + 1 THEN n ELSE i
                    wide(k) == Total(m[k]) + m[k][1] + m[k][n] IN      (* sum over the n + 2 nodes of the continued row *)
                IF i \in {0, n + 1} THEN wide(r) ELSE (n + 2) * m[r][IF j = 0 THEN n ELSE IF j = n + 1 THEN 1 ELSE j]
(* 16 * (n + 2) times the height *)
Height(m, a, b) == LET i == a \div 4 j == b \div 4 x == a % 4 y == b % 4
                       e(p, q) == IF (p = i + 1 /\ x = 0) \/ (q = j + 1 /\ y = 0) THEN 0 ELSE Ext(m, p, q) IN
                   ((4 - x) * (4 - y) * e(i, j)) + (x * (4 - y) * e(i + 1, j)) + ((4 - x) * y * e(i, j + 1)) + (x * y * e(i + 1, j + 1))
Unit(m) == 16 * (Len(m) + 2)
Above(m, h, a, b) == h * Unit(m) - Height(m, a, b)      (* in 1/Unit metre *)

(* --- stations ------------------------------------------------------------ *)
(* f: days, val and qc (day by station), elev, pos (station), hold (stations  *)
(* reserved); o: day (or -1), qc, adj, map                                    *)
DaysOf(f, o) == IF o.day < 0 THEN [i \in DOMAIN f.days |-> i] ELSE SelectSeq([i \in DOMAIN f.days |-> i], LAMBDA i : f.days[i] = o.day)
Hidden(f, o, d, s) == \/ f.val[d][s] = MISS
                      \/ (o.qc /\ f.qc[d][s] # 0)
                      \/ (\E i \in DOMAIN f.hold : f.hold[i] = f.codes[s])
                      \/ (o.adj /\ f.elev[s] = MISS)
Changed(f, o, d, s, v) == IF o.adj THEN Near((v - f.val[d][s]) * Unit(f.map), 13 * Above(f.map, f.elev[s], f.pos[s][1], f.pos[s][2]), 2 * Unit(f.map)) ELSE Near(v, f.val[d][s], 1)
Uncertain(f, o, s, u) == IF o.adj THEN LET e == (11 * Abs(Above(f.map, f.elev[s], f.pos[s][1], f.pos[s][2]))) \div Unit(f.map) IN RootOf(u, 9000000 + e * e) ELSE Near(u, 3000, 1)
Station(f, o, d, s, r) == /\ r.m = Hidden(f, o, d, s) /\ r.t = f.days[d] /\ r.p = s - 1
                          /\ ~r.m => (Changed(f, o, d, s, r.v) /\ Uncertain(f, o, s, r.u))
Stations(f) == Len(f.codes)
Delivered(f, o, q) == LET D == DaysOf(f, o) n == Stations(f) IN
    /\ Len(q) = Len(D) * n
    /\ \A k \in DOMAIN q : Station(f, o, D[((k - 1) \div n) + 1], ((k - 1) % n) + 1, q[k])

(* --- ships and lakes ------------------------------------------------------ *)
Ship(x, k, r) == ~r.m /\ r.t = x.t /\ r.p = k - 1 /\ Near(r.v, 20 * x.c, 1) /\ Near(r.u, 11000, 1)     (* hundredths of a degree Celsius *)
Ships(rs, q) == Len(q) = Len(rs) /\ \A k \in DOMAIN q : Ship(rs[k], k, q[k])
Lake(x, lookup, r) == /\ ~r.m /\ r.t = x.t /\ Near(r.v, 20 * x.c, 1) /\ Near(r.u, 50000, 1)
                      /\ r.p + 1 \in DOMAIN lookup /\ lookup[r.p + 1] = <<x.la, x.lo>>
Lakes(rs, lookup, q) == /\ Len(q) = Len(rs) /\ \A k \in DOMAIN q : Lake(rs[k], lookup, q[k])
                        /\ Len(lookup) = Cardinality({<<rs[i].la, rs[i].lo>> : i \in DOMAIN rs})

(* --- gridded fields ------------------------------------------------------ *)
Box(v, u, c, t, k, r) == /\ r.m = (v[k] = MISS) /\ r.t = t /\ r.p = k - 1 /\ Len(r.c) = Len(c)
                         /\ ~r.m => (Near(r.v, v[k], 1) /\ Near(r.u, u[k], 1) /\ \A i \in DOMAIN c : Near(r.c[i], c[i][k], 1))
Field(f, q) == Len(q) = Len(f.v) /\ \A k \in DOMAIN q : Box(f.v, f.u, f.c, f.t, k, q[k])
(* mean of two fields: valid where both are; uncertainties are root mean squares *)
Half(u, a, b) == RootOf(u, ((a * a) + (b * b)) \div 2)
Mean(f, g, q) == /\ Len(q) = Len(f.v)
                 /\ \A k \in DOMAIN q : LET r == q[k] IN
                    /\ r.m = (f.v[k] = MISS \/ g.v[k] = MISS) /\ r.t = f.t /\ r.p = k - 1 /\ Len(r.c) = Len(f.c)
                    /\ ~r.m => (Near(2 * r.v, f.v[k] + g.v[k], 2) /\ Half(r.u, f.u[k], g.u[k]) /\ \A i \in DOMAIN f.c : Half(r.c[i], f.c[i][k], g.c[i][k]))
(* two hemispheres in one numbering of all rows between the first and the last *)
Joined(f, g, shift, q) == /\ Len(q) = Len(f.v) + Len(g.v) /\ Field(f, SubSeq(q, 1, Len(f.v)))
                          /\ \A k \in 1..Len(g.v) : LET r == q[Len(f.v) + k] IN r.p = shift + k - 1 /\ Box(g.v, g.u, g.c, g.t, k, [r EXCEPT !.p = k - 1])

(* --- a prepared day ------------------------------------------------------- *)
(* exactly what is delivered, not hidden and of that day, in the same order   *)
Kept(q, day) == SelectSeq(q, LAMBDA r : ~r.m /\ r.t = day)
Same(a, b) == a.p = b.p /\ Near(a.v, b.v, 1) /\ Near(a.u, b.u, 1)
Prepared(q, day, w) == LET e == Kept(q, day) IN Len(w) = Len(e) /\ \A k \in DOMAIN w : Same(w[k], e[k])
=============================================================================
