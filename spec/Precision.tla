----------------------------- MODULE Precision -----------------------------
(* Prior precisions: how smooth fields on lattices, on the sphere and on both *)
(* together are described. Every number carries its slope (a "dual" number    *)
(* <<value, slope>>), so that the precision and its derivative are one        *)
(* calculation and cannot disagree.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Dual(a, b) == <<a, b>>
DC(a) == <<a, 0>>
DAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
DMul(x, y) == <<x[1] * y[1], (x[1] * y[2]) + (x[2] * y[1])>>
RECURSIVE DRow(_, _, _, _, _), MPow(_, _)
(* sum over k of A[i][k] B[k][j]: most entries are nothing *)
DRow(A, B, i, j, k) == IF k = 0 THEN <<0, 0>>
                       ELSE IF A[i][k] = <<0, 0>> \/ B[k][j] = <<0, 0>> THEN DRow(A, B, i, j, k - 1)
                       ELSE DAdd(DMul(A[i][k], B[k][j]), DRow(A, B, i, j, k - 1))
MMul(A, B) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A |-> DRow(A, B, i, j, Len(A))]])
MPow(A, n) == IF n = 1 THEN A ELSE MMul(MPow(A, n - 1), A)
RECURSIVE P2(_)
P2(n) == IF n <= 0 THEN 1 ELSE 2 * P2(n - 1)
(* ---- lattices: the first dimension varies fastest ---- *)
RECURSIVE CountFrom(_, _), PlaceFrom(_, _, _)
CountFrom(sizes, k) == IF k > Len(sizes) THEN 1 ELSE sizes[k] * CountFrom(sizes, k + 1)
CountAll(sizes) == CountFrom(sizes, 1)
PlaceFrom(sizes, i, k) == IF k > Len(sizes) THEN <<>> ELSE <<i % sizes[k]>> \o PlaceFrom(sizes, i \div sizes[k], k + 1)
Place(sizes, i) == PlaceFrom(sizes, i, 1)
(* next to each other in dimension d, round the end where the dimension is a cycle *)
Apart(n, wrap, a, b) == LET x == IF a < b THEN b - a ELSE a - b IN x = 1 \/ (wrap /\ x = n - 1)
Linked(g, i, j, d) == LET p == Place(g.sizes, i) q == Place(g.sizes, j) IN
  /\ \A k \in DOMAIN g.sizes : k # d => p[k] = q[k]
  /\ Apart(g.sizes[d], g.wrap[d], p[d], q[d])
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
(* the operator: ksq the (dual) squares of kappa, ds the scale of each dimension, all in the same unit *)
Operator(g, ksq, ds) == LET n == CountAll(g.sizes) IN TLCEval(
  [i \in 1 .. n |-> [j \in 1 .. n |->
    IF i = j THEN DAdd(ksq[i], DC(2 * SumTo(ds, Len(ds))))
    ELSE LET L == {d \in DOMAIN g.sizes : Linked(g, i - 1, j - 1, d)} IN IF L = {} THEN <<0, 0>> ELSE DC(-ds[CHOOSE d \in L : TRUE])]])
Scaled(P, tau, s) == TLCEval([i \in DOMAIN P |-> [j \in DOMAIN P |-> IF P[i][j] = <<0, 0>> THEN <<0, 0>> ELSE DMul(DMul(DC(s), DMul(tau[i], P[i][j])), tau[j])]])
LatticeQ(g, ksq, ds, tau, s, alpha) == Scaled(MPow(Operator(g, ksq, ds), alpha), tau, s)
(* ---- the undivided sphere: twelve points with five neighbours each; m the (dual) parts of the diagonal beyond the neighbours ---- *)
SphereK(adj, m) == [i \in DOMAIN m |-> [j \in DOMAIN m |-> IF i = j THEN DAdd(m[i], DC(5)) ELSE IF <<i, j>> \in adj THEN DC(-1) ELSE <<0, 0>>]]
SphereQ(adj, m, tau, alpha) == Scaled(MPow(SphereK(adj, m), alpha), tau, 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
(* ---- weights of the nodes of a lattice at a place: distances in eighths of the spacing, the shorter way round a cycle ---- *)
Gap(n, wrap, x, k) == LET a == IF x < 8 * k THEN (8 * k) - x ELSE x - (8 * k) b == a % (8 * n) IN
  IF wrap THEN (IF 2 * b > 8 * n THEN (8 * n) - b ELSE b) ELSE a
F == 10000
Part(a, b) == (a * F) \div b
Times(x, y) == (x * y) \div F
(* span in quarters of the spacing *)
Linear(gap, span) == LET r == (gap * F) \div (2 * span) IN IF r > F THEN 0 ELSE F - r
Wendland(gap, span) == LET r == (gap * F) \div (2 * span) IN IF r > F THEN 0 ELSE
  LET u == F - r u2 == Times(u, u) u6 == Times(Times(u2, u2), u2) IN Times(u6, ((35 * Times(r, r)) + (18 * r) + (3 * F)) \div 3)
(* ---- elements: where in the state a point and a time are ---- *)
Both(ns, t, s) == (t * ns) + s
HarmonicOf(c, mean) == (c + (IF mean THEN 1 ELSE 0)) \div 2
(* sine of eighths of a turn *)
Eighth == <<0, 7071, 10000, 7071, 0, -7071, -10000, -7071>>
Sine(k) == Eighth[(k % 8) + 1]
Cosine(k) == Eighth[((k + 2) % 8) + 1]
Seasons(mean, n, k) == (IF mean THEN <<10000>> ELSE <<>>) \o [c \in 1 .. 2 * n |-> LET h == (c + 1) \div 2 IN IF c % 2 = 1 THEN Sine(h * k) ELSE Cosine(h * k)]
=============================================================================
