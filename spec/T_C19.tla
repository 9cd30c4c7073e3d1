------------------------------- MODULE T_C19 -------------------------------
(* Recorded meshes and locations against the exact division of the surface.   *)
EXTENDS TraceBase, Mesh
VARIABLES canon
Init == TraceInit /\ canon = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Rng(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Four(n) == Pow2(2 * n)
Id(x) == <<x.t, x.path>>
(* ---- meshes ---- *)
Add3(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Cross(a, b) == <<(a[2] * b[3]) - (a[3] * b[2]), (a[3] * b[1]) - (a[1] * b[3]), (a[1] * b[2]) - (a[2] * b[1])>>
Dot(a, b) == ((a[1] * b[1]) + (a[2] * b[2])) + (a[3] * b[3])
Small(a) == <<a[1] \div 20, a[2] \div 20, a[3] \div 20>>
Odd(p) == {q \in p : q[2] % 2 = 1}
Shift(p, up, down) == {<<k, IF k = up THEN Amount(p, k) + 1 ELSE IF k = down THEN Amount(p, k) - 1 ELSE Amount(p, k)>> : k \in {q[1] : q \in p}}
Clear(p) == {q \in p : q[2] # 0}
Named(e, o) == [i \in DOMAIN o.tri |-> [id |-> Id(o.tri[i]), c |-> o.tri[i].c, p |-> Corners(e.base, o.tri[i].t, o.tri[i].path, e.level)]]
(* each triangle of the base is named by its number, the parts by the digits of the parts *)
Structure(e, o, tri, at) ==
  LET n == e.level np == (10 * Four(n)) + 2 nt == 20 * Four(n) ne == 30 * Four(n) IN
  /\ (\A i \in DOMAIN tri : \A j \in 1 .. 3 : tri[i].c[j] \in 0 .. np - 1 /\ at[tri[i].c[j] + 1] = tri[i].p[j])
  /\ Cardinality({tri[i].id : i \in DOMAIN tri}) = nt /\ Cardinality({at[k] : k \in 1 .. np}) = np
Slot(tri, x, d, i, p, q) == x \in DOMAIN tri /\ tri[x].id = d /\ i \in 0 .. 2 /\ tri[x].c[i + 1] = p /\ tri[x].c[((i + 1) % 3) + 1] = q
(* every side of every triangle occurs once, and an edge joins two triangles that go through it in opposite directions *)
Edges(o, tri) == /\ (\A i \in DOMAIN o.edges : LET x == o.edges[i] IN x.a.clean /\ x.b.clean /\ Slot(tri, x.k, Id(x.a), x.i, x.p, x.q) /\ Slot(tri, x.m, Id(x.b), x.j, x.q, x.p))
                 /\ Cardinality({(3 * o.edges[i].k) + o.edges[i].i : i \in DOMAIN o.edges} \cup {(3 * o.edges[i].m) + o.edges[i].j : i \in DOMAIN o.edges}) = 2 * Len(o.edges)
Parents(q) == LET a == CHOOSE x \in Odd(q) : TRUE b == CHOOSE x \in Odd(q) : x # a IN {Clear(Shift(q, a[1], b[1])), Clear(Shift(q, b[1], a[1]))}
Middle(e, o, at, k) == LET a == o.from[k][1] b == o.from[k][2] v == o.points[k] w == Add3(o.points[a], o.points[b]) c == Cross(v, w) IN
  /\ {at[a], at[b]} = Parents(at[k])
  /\ (IF e.project THEN Abs(c[1]) <= 60000 /\ Abs(c[2]) <= 60000 /\ Abs(c[3]) <= 60000 /\ Dot(v, w) > 0
      ELSE \A z \in 1 .. 3 : Abs((2 * v[z]) - w[z]) <= 3)
Geometry(e, o, at) == \A k \in DOMAIN o.points : LET v == o.points[k] IN
  /\ (e.project \/ e.level = 0 => Abs(Dot(v, v) - 100000000) <= 60000)
  /\ (e.level > 0 /\ Odd(at[k]) # {} => Middle(e, o, at, k))
Turned(o) == \A i \in DOMAIN o.tri : LET x == o.tri[i].c a == Small(o.points[x[1] + 1]) b == Small(o.points[x[2] + 1]) c == Small(o.points[x[3] + 1]) IN Dot(Cross(a, b), c) < 0
Equal(o) == \A i \in DOMAIN o.edges : Abs(Dot(o.points[o.edges[i].p + 1], o.points[o.edges[i].q + 1]) - 44721360) <= 60000
Sizes(e, o) == LET n == e.level IN
  /\ o.level = n /\ Len(o.points) = (10 * Four(n)) + 2 /\ Len(o.tri) = 20 * Four(n) /\ Len(o.edges) = 30 * Four(n)
  /\ \A i \in DOMAIN o.tri : o.tri[i].clean /\ o.tri[i].t \in 0 .. 19 /\ Len(o.tri[i].path) = n
(* o.see: for each point a triangle and corner where it occurs; o.from: the points it was put between; k, m of edges: places in the list (helps, verified) *)
Mesh == Is("mesh") /\ LET e == Ev.in o == Ev.out IN
  /\ Sizes(e, o) = TRUE
  /\ \E tri \in {TLCEval(Named(e, o))} : \E at \in {TLCEval([k \in DOMAIN o.points |-> tri[o.see[k][1]].p[o.see[k][2]]])} :
       /\ (Structure(e, o, tri, at) /\ Edges(o, tri) /\ Geometry(e, o, at) /\ Turned(o) /\ (e.level = 0 => Equal(o))) = TRUE
       /\ canon' = (IF e.keep THEN at ELSE <<>>)
(* ---- locations ---- *)
Support(base, q, n) == LET c == Corners(base, q.t, q.path, n) IN {c[i] : i \in {j \in 1 .. 3 : q.w[j] > 0}}
Weight(base, q, n, p) == LET c == Corners(base, q.t, q.path, n) IN IF \E i \in 1 .. 3 : c[i] = p THEN q.w[CHOOSE i \in 1 .. 3 : c[i] = p] ELSE 0
Tol(n) == IF n < 12 THEN 5 ELSE IF n < 20 THEN 50 ELSE 3000
Found(e, q, x, w) == LET n == Len(q.path) m == e.level s == SumOf(q.w) IN
  /\ x.clean /\ x.t \in 0 .. 19 /\ Len(x.path) = m
  /\ (\A p \in Support(e.base, q, n) : In(e.base, x.t, x.path, p))
  /\ (\A i \in 1 .. 3 : w[i] >= 0) /\ Abs(SumOf(w) - 1000000) <= 3
  /\ (m = n => \A i \in 1 .. 3 : LET k == Weight(e.base, q, n, Corners(e.base, x.t, x.path, n)[i]) IN
        IF e.method = "spherical" THEN (k = 0) = (w[i] <= Tol(n)) ELSE Abs(w[i] - ((k * 1000000) \div s)) <= Tol(n) + 1)
Locate == Is("locate") /\ LET e == Ev.in o == Ev.out IN
  /\ (o.n = Len(e.queries) /\ o.same /\ \A i \in DOMAIN e.queries : Found(e, e.queries[i], o.ids[i], o.w[i])) = TRUE
  /\ canon' = canon
(* rows of the matrix that takes values at the points of the mesh to values at the given directions *)
Row(e, q, r) == LET n == Len(q.path) s == SumOf(q.w) want == {<<(CHOOSE k \in DOMAIN canon : canon[k] = p) - 1, (Weight(e.base, q, n, p) * 1000000) \div s>> : p \in Support(e.base, q, n)} IN
  /\ (\A x \in want : \E y \in Rng(r) : y.k = x[1] /\ Abs(y.x - x[2]) <= 6)
  /\ (\A y \in Rng(r) : y.x >= 0 /\ (y.x > 6 => \E x \in want : x[1] = y.k)) /\ Cardinality({y.k : y \in Rng(r)}) = Len(r)
Matrix == Is("matrix") /\ LET e == Ev.in o == Ev.out IN
  /\ (Len(o.rows) = Len(e.queries) /\ o.n = Len(canon) /\ o.cols = o.n /\ \A i \in DOMAIN e.queries : Row(e, e.queries[i], o.rows[i])) = TRUE
  /\ canon' = canon
Next == Mesh \/ Locate \/ Matrix
=============================================================================
