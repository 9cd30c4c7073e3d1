------------------------------- MODULE T_C23 -------------------------------
EXTENDS Precision, TraceBase
Init == TraceInit
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Near(x, y, tol) == Abs(x - y) <= tol
Values(Q) == [i \in DOMAIN Q |-> [j \in DOMAIN Q |-> Q[i][j][1]]]
Slopes(Q) == [i \in DOMAIN Q |-> [j \in DOMAIN Q |-> Q[i][j][2]]]
Same(Q, o) == Values(Q) = o.q /\ Slopes(Q) = o.dq
RECURSIVE Prod(_, _)
Prod(s, k) == IF k = 0 THEN 1 ELSE s[k] * Prod(s, k - 1)
Grid(e) == [sizes |-> e.sizes, wrap |-> e.wrap]
(* ---- precision of a lattice from kappa and tau (the operator in units of one over ks) ---- *)
LatticeEvent == Is("lattice") /\ LET e == Ev.in o == Ev.out IN
  (IF e.alpha > 2 THEN o.refused
   ELSE \E Q \in {LatticeQ(Grid(e), TLCEval([i \in DOMAIN e.kap |-> DMul(DC(e.ks), DMul(e.kap[i], e.kap[i]))]), e.ds, e.tau, Prod(e.h, Len(e.h)), e.alpha)} : ~o.refused /\ Same(Q, o)) = TRUE
(* ---- from logarithms of scale and range, linear in parameters (in halves and doubles): Q in units in which everything is whole, slopes in halves ---- *)
Kind(d, alpha) == IF d = 2 THEN [k0 |-> 8, ks |-> 4, ts |-> 2, nu2 |-> 2] ELSE IF alpha = 1 THEN [k0 |-> 4, ks |-> 16, ts |-> 2, nu2 |-> 1] ELSE [k0 |-> 12, ks |-> 4, ts |-> 4, nu2 |-> 3]
RECURSIVE Dot(_, _, _)
Dot(r, t, k) == IF k = 0 THEN 0 ELSE (r[k] * t[k]) + Dot(r, t, k - 1)
Log2Times(x, n) == IF n >= 0 THEN x * P2(n) ELSE x \div P2(-n)
RegressEvent == Is("regress") /\ LET e == Ev.in o == Ev.out c == Kind(Len(e.sizes), e.alpha) n == CountAll(e.sizes) p == Len(e.theta) k == e.index + 1
    a == [i \in 1 .. n |-> Dot(e.sd[i], e.theta, p)]
    b == [i \in 1 .. n |-> Dot(e.rd[i], e.theta, p)]
    ksq == TLCEval([i \in 1 .. n |-> LET v == Log2Times(c.k0 * c.ks, -2 * b[i]) IN <<v, -4 * e.rd[i][k] * v>>])
    tau == TLCEval([i \in 1 .. n |-> LET v == Log2Times(P2(c.ts), ((c.nu2 * b[i]) \div 2) - a[i]) IN <<v, ((c.nu2 * e.rd[i][k]) - (2 * e.sd[i][k])) * v>>])
    ds == [d \in DOMAIN e.ds |-> c.ks * e.ds[d]] IN
  (\E Q \in {LatticeQ(Grid(e), ksq, ds, tau, Prod(e.h, Len(e.h)), e.alpha)} : Values(Q) = o.q /\ \A i, j \in 1 .. n : Q[i][j][2] = 2 * o.dq[i][j]) = TRUE
(* ---- the undivided sphere, from kappa and tau ---- *)
Adjacent(tri) == {<<tri[t][x] + 1, tri[t][y] + 1>> : t \in DOMAIN tri, x \in 1 .. 3, y \in 1 .. 3}
SphereEvent == Is("sphere") /\ LET e == Ev.in o == Ev.out IN
  (\E adj \in {TLCEval(Adjacent(e.tri))} : \E Q \in {SphereQ(adj, e.m, e.tau, e.alpha)} : Same(Q, o)) = TRUE
(* ---- any sphere, from logarithms of scale and range alike everywhere: powers of the operator, m[j] the part with j neighbour steps in units of (8 nu)^j ---- *)
RECURSIVE Series(_, _, _, _, _)
Series(alpha, b, m, j, f) == IF j < 0 THEN 0 ELSE (Log2Times(m[j + 1] * Binom(alpha, j) * (IF f = 1 THEN 1 ELSE 2 * (j - 1)), 2 * b * j)) + Series(alpha, b, m, j - 1, f)
RECURSIVE Slack(_, _, _)
Slack(alpha, b, j) == IF j < 0 THEN 2 ELSE (Log2Times(Binom(alpha, j) * 4, 2 * b * j)) + 1 + Slack(alpha, b, j - 1)
Level(x, y, tol, n) == IF n >= 0 THEN Near(x * P2(n), y, tol + P2(n)) ELSE Near(x, y * P2(-n), (tol + 2) * P2(-n))
ParamEvent == Is("param") /\ LET e == Ev.in o == Ev.out tol == Slack(e.alpha, e.b, e.alpha) n == 2 * (e.a + e.b) IN
  (\A k \in DOMAIN e.m : LET q == Series(e.alpha, e.b, e.m[k], e.alpha, 1) d == Series(e.alpha, e.b, e.m[k], e.alpha, 2) IN
     /\ Level(o.q[k], q, tol, n) /\ Level(o.flat[k], q, tol, n)
     /\ Level(o.d0[k], -2 * q, 2 * tol, n)
     /\ Level(o.d1[k], d, 6 * tol, n)) = TRUE
(* ---- scale and range of each point its own: second order ---- *)
Own(e, i, which) == which = e.which /\ i = e.point
KSq(e, i) == LET v == Log2Times(8, -2 * e.b[i + 1]) IN <<v, IF Own(e, i, "rho") THEN -2 * v ELSE 0>>
Tau(e, i) == LET v == Log2Times(4, e.b[i + 1] - e.a[i + 1]) IN <<v, IF Own(e, i, "rho") THEN v ELSE IF Own(e, i, "sigma") THEN -v ELSE 0>>
Entry(e, x) == LET i == x.i j == x.j IN
  DMul(DMul(Tau(e, i), Tau(e, j)), DAdd(DAdd(IF i = j THEN DMul(DC(x.c), DMul(KSq(e, i), KSq(e, i))) ELSE <<0, 0>>, DMul(DC(x.g), DAdd(KSq(e, i), KSq(e, j)))), DC(x.m)))
Loose(e, x) == LET k1 == KSq(e, x.i)[1] k2 == KSq(e, x.j)[1] IN Tau(e, x.i)[1] * Tau(e, x.j)[1] * ((k1 * k2) + k1 + k2 + 2)
ExpandedEvent == Is("expanded") /\ LET e == Ev.in o == Ev.out IN
  (\A k \in DOMAIN e.at : LET q == Entry(e, e.at[k]) t == Loose(e, e.at[k]) IN Near(o.q[k], q[1], t) /\ Near(o.dq[k], q[2], 6 * t)) = TRUE
(* ---- elements: parts of the state ---- *)
SpaceOf(e, p) == e.space[CHOOSE k \in DOMAIN e.space : e.space[k].p = p]
TimeOf(e, alpha) == e.time[CHOOSE k \in DOMAIN e.time : e.time[k].alpha = alpha]
(* derivative with respect to parameter k (numbered from nothing); -1 the precision itself *)
SpacePart(s, k) == IF k = -1 THEN s.q ELSE IF k = 0 THEN s.d0 ELSE s.d1
NS(e) == Len(e.space[1].q)
ThreeParts(e, k) == [s |-> SpacePart(SpaceOf(e, <<e.hyp[1], e.hyp[2]>>), IF k = 2 THEN -1 ELSE k), t |-> IF k = 2 THEN TimeOf(e, IF e.kind = "factor" THEN e.alpha ELSE 1).d ELSE TimeOf(e, IF e.kind = "factor" THEN e.alpha ELSE 1).q]
KronAt(e, k, i, j, v) == LET z == ThreeParts(e, k) n == NS(e) x == z.t[(i \div n) + 1][(j \div n) + 1] y == z.s[(i % n) + 1][(j % n) + 1] IN Near(v, x * y, Abs(x) + Abs(y) + 2)
FactorAt(e, k, i, j, v) == LET z == ThreeParts(e, k) n == NS(e) IN
  IF i < n /\ j < n THEN (IF k = 2 THEN v = 0 ELSE Near(v, z.s[i + 1][j + 1], 1))
  ELSE IF i >= n /\ j >= n THEN (IF k \in {0, 1} THEN v = 0 ELSE Near(v, z.t[i - n + 1][j - n + 1], 1)) ELSE v = 0
SeasonAt(e, k, i, j, v) == LET n == NS(e) c == i \div n h == HarmonicOf(c, e.mean) IN
  IF c # j \div n \/ (k >= 0 /\ k \div 2 # h) THEN v = 0
  ELSE Near(v, SpacePart(SpaceOf(e, <<e.hyp[(2 * h) + 1], e.hyp[(2 * h) + 2]>>), IF k = -1 THEN -1 ELSE k % 2)[(i % n) + 1][(j % n) + 1], 1)
LocalAt(e, k, i, j, v) == Near(v, SpacePart(SpaceOf(e, <<e.hyp[1], e.hyp[2]>>), k)[i + 1][j + 1], 1)
StateSize(e) == CASE e.kind = "kron" -> NS(e) * e.nt [] e.kind = "factor" -> NS(e) + e.nt [] e.kind = "local" -> NS(e) [] e.kind = "season" -> NS(e) * ((2 * e.harmonics) + (IF e.mean THEN 1 ELSE 0))
PriorEvent == Is("prior") /\ LET e == Ev.in o == Ev.out IN
  (/\ o.n = StateSize(e) /\ o.hyp = e.hyp
   /\ \A w \in DOMAIN o.mats : LET m == o.mats[w] IN
        /\ m.k = w - 2 /\ m.shape = <<o.n, o.n>>
        /\ \A x \in DOMAIN m.v : LET r == m.v[x] IN
             CASE e.kind = "kron" -> KronAt(e, m.k, r[1], r[2], r[3]) [] e.kind = "factor" -> FactorAt(e, m.k, r[1], r[2], r[3]) [] e.kind = "season" -> SeasonAt(e, m.k, r[1], r[2], r[3]) [] e.kind = "local" -> LocalAt(e, m.k, r[1], r[2], r[3])
   /\ Len(o.mats) = Len(e.hyp) + 1) = TRUE
(* ---- weights of a lattice at places ---- *)
OneWeight(basis, n, wrap, x, k, span) == IF basis = "wendland" THEN Wendland(Gap(n, wrap, x, k), span) ELSE Linear(Gap(n, wrap, x, k), span)
RECURSIVE WeightAt(_, _, _, _)
WeightAt(e, x, p, d) == IF d = 0 THEN F ELSE Times(OneWeight(e.basis, e.sizes[d], e.wrap[d], x[d], p[d], e.span), WeightAt(e, x, p, d - 1))
WeightEvent == Is("weights") /\ LET e == Ev.in o == Ev.out n == CountAll(e.sizes) IN
  (/\ o.nodes = n
   /\ \A k \in DOMAIN e.places : \A i \in 1 .. n : Near(o.rows[k][i], WeightAt(e, e.places[k], Place(e.sizes, i - 1), Len(e.sizes)), 15)
   /\ o.first = [i \in 1 .. n |-> Place(e.sizes, i - 1)]) = TRUE
(* ---- designs of elements: r rows, weights in ten thousandths ---- *)
TimeWeights(e) == CASE e.kind = "season" -> Seasons(e.mean, e.harmonics, e.x)
                    [] e.kind = "local" -> <<F>>
                    [] OTHER -> [t \in 1 .. e.nt |-> Wendland(Gap(e.nt, e.cycle, e.x, t - 1), e.span)]
RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)
Weighted(w, x) == SumSeq([k \in DOMAIN w |-> w[k] * x[k]], Len(w))
AbsOf(w, r) == [k \in DOMAIN w |-> IF r THEN Abs(w[k]) ELSE w[k]]
(* value of the field at row r for a state of whole numbers *)
ProductValue(e, at, s, r) == LET n == Len(s) IN SumSeq([t \in DOMAIN at |-> Times(AbsOf(at, r)[t], Weighted(AbsOf(s, r), SubSeq(e.state, ((t - 1) * n) + 1, t * n)))], Len(at))
FactorValue(e, at, s, r) == LET n == Len(s) IN Times(Weighted(AbsOf(s, r), SubSeq(e.state, 1, n)), Weighted(AbsOf(at, r), SubSeq(e.state, n + 1, n + Len(at))))
Value(e, at, s, r) == IF e.kind = "factor" THEN FactorValue(e, at, s, r) ELSE ProductValue(e, at, s, r)
JacAt(e, at, s, c) == LET n == Len(s) IN
  IF e.kind = "factor" THEN (IF c < n THEN Times(Weighted(at, SubSeq(e.state, n + 1, n + Len(at))), s[c + 1]) ELSE Times(at[c - n + 1], Weighted(s, SubSeq(e.state, 1, n))))
  ELSE Times(at[(c \div n) + 1], s[(c % n) + 1])
Width(e, at) == IF e.kind = "factor" THEN Len(e.As[1]) + Len(at) ELSE Len(e.As[1]) * Len(at)
DesignEvent == Is("design") /\ LET e == Ev.in o == Ev.out IN
  (\E at \in {TLCEval(TimeWeights(e))} :
     /\ o.n = Width(e, at) /\ o.start = Width(e, at) /\ o.shape = <<Len(e.As), Width(e, at)>>
     /\ (\A r \in DOMAIN e.As : /\ Near(o.value[r], Value(e, at, e.As[r], FALSE), 200)
                                /\ Near(o.rectified[r], Value(e, at, e.As[r], TRUE), 200)
                                /\ \A k \in DOMAIN o.jac[r] : Near(o.jac[r][k][2], JacAt(e, at, e.As[r], o.jac[r][k][1]), 200))) = TRUE
Next == (LatticeEvent \/ RegressEvent \/ SphereEvent \/ ParamEvent \/ ExpandedEvent \/ PriorEvent \/ WeightEvent \/ DesignEvent)
=============================================================================
