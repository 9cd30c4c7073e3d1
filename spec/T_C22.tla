------------------------------- MODULE T_C22 -------------------------------
EXTENDS Views, TraceBase
VARIABLES mesh
Init == TraceInit /\ mesh = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Rng(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
TotalOf(S, f(_)) == FoldLeft(LAMBDA a, x : a + f(x), 0, SetToSeq(S))
Sorted(S) == SetToSortSeq(S, <)
(* ---- the mesh: every point named by its place ---- *)
Names(e, o) == [i \in DOMAIN o.tri |-> Corners(e.base, o.tri[i].t, o.tri[i].path, e.level)]
MeshEvent == Is("mesh") /\ LET e == Ev.in o == Ev.out IN
  \E nm \in {TLCEval(Names(e, o))} : \E at \in {TLCEval([k \in DOMAIN o.see |-> nm[o.see[k][1]][o.see[k][2]]])} :
    /\ (\A i \in DOMAIN o.tri : /\ <<o.tri[i].t, o.tri[i].path>> = Ident(i - 1, e.level)
                                /\ \A j \in 1 .. 3 : at[o.tri[i].c[j] + 1] = nm[i][j]) = TRUE
    /\ mesh' = [base |-> e.base, level |-> e.level, ids |-> [i \in DOMAIN o.tri |-> <<o.tri[i].t, o.tri[i].path>>], c |-> [i \in DOMAIN o.tri |-> o.tri[i].c], np |-> Len(o.see),
                area |-> e.area, dots |-> e.dots, at |-> at]
(* ---- one region ---- *)
Tri(v) == Active(mesh.base, v, mesh.ids)
Verts(tri) == UNION {Rng(mesh.c[i]) : i \in tri}
Unit(rows, want) == Len(rows) = Len(want) /\ \A i \in DOMAIN rows : rows[i] = <<want[i], 1>>
Position(want, x) == CHOOSE i \in DOMAIN want : want[i] = x
(* a triangle gives a third of its area to each corner, and the products of its sides to each pair of corners *)
Pair(i, p, q) == LET a == CHOOSE k \in 1 .. 3 : mesh.c[i][k] = p b == CHOOSE k \in 1 .. 3 : mesh.c[i][k] = q IN mesh.dots[i][a][b]
Has2(tri, p, q) == {i \in tri : p \in Rng(mesh.c[i]) /\ q \in Rng(mesh.c[i])}
Mass(tri, verts, m) == /\ Len(m) = Len(verts)
  /\ \A k \in DOMAIN verts : Abs((3 * m[k]) - TotalOf({i \in tri : verts[k] \in Rng(mesh.c[i])}, LAMBDA i : mesh.area[i])) <= 40
Stiff(tri, verts, g) == /\ (\A x \in Rng(g) : Abs(x[3] - TotalOf(Has2(tri, verts[x[1] + 1], verts[x[2] + 1]), LAMBDA i : Pair(i, verts[x[1] + 1], verts[x[2] + 1]))) <= 40)
  /\ {<<verts[x[1] + 1], verts[x[2] + 1]>> : x \in {y \in Rng(g) : Abs(y[3]) > 40}} = {z \in UNION {Rng(mesh.c[i]) \X Rng(mesh.c[i]) : i \in tri} : Abs(TotalOf(Has2(tri, z[1], z[2]), LAMBDA i : Pair(i, z[1], z[2]))) > 40}
ViewEvent == Is("view") /\ LET e == Ev.in o == Ev.out IN
  /\ \E t \in {TLCEval(Tri(e))} : \E vs \in {TLCEval(Sorted(Verts(t)))} : \E ts \in {TLCEval(Sorted(t))} :
       (/\ [k \in DOMAIN o.tri |-> o.tri[k] + 1] = ts /\ o.vert = vs /\ o.n = Len(vs) /\ o.state = Len(vs)
        /\ Unit(o.vm, vs) /\ Unit(o.tm, [k \in DOMAIN ts |-> ts[k] - 1]) /\ o.vmshape = <<Len(vs), mesh.np>> /\ o.tmshape = <<Len(ts), Len(mesh.ids)>>
        /\ o.total = 20 * Pow2(2 * e.at)
        /\ (o.mats => Mass(t, vs, o.mass) /\ Stiff(t, vs, o.stiff))) = TRUE
  /\ mesh' = mesh
(* ---- values at places ---- *)
Place3(q) == LET c == Corners(mesh.base, q.t, q.path, mesh.level) IN {<<c[i], q.w[i]>> : i \in {j \in 1 .. 3 : q.w[j] > 0}}
Touches(q) == LET s == {x[1] : x \in Place3(q)} IN {i \in DOMAIN mesh.ids : \A p \in s : \E j \in 1 .. 3 : mesh.at[mesh.c[i][j] + 1] = p}
Vertex(p) == (CHOOSE k \in DOMAIN mesh.at : mesh.at[k] = p) - 1
Full(q, vs, r) == LET s == SumOf(q.w) want == {<<Position(vs, Vertex(x[1])) - 1, (x[2] * 1000000) \div s>> : x \in Place3(q)} IN
  /\ (\A x \in want : \E y \in Rng(r) : y[1] = x[1] /\ Abs(y[2] - x[2]) <= 6)
  /\ (\A y \in Rng(r) : Abs(y[2]) > 6 => \E x \in want : x[1] = y[1])
Empty(r) == \A y \in Rng(r) : y[2] = 0
DesignEvent == Is("design") /\ LET e == Ev.in o == Ev.out IN
  /\ \E t \in {TLCEval(Tri(e.view))} : \E vs \in {TLCEval(Sorted(Verts(t)))} :
       (/\ Len(o.rows) = Len(e.queries) /\ Len(o.inside) = Len(e.queries) /\ o.cols = Len(vs)
        /\ \A i \in DOMAIN e.queries : LET q == e.queries[i] to == Touches(q) IN
             /\ (to \subseteq t => o.inside[i]) /\ (to \cap t = {} => ~o.inside[i])
             /\ (IF o.inside[i] THEN Full(q, vs, o.rows[i]) ELSE Empty(o.rows[i]))) = TRUE
  /\ mesh' = mesh
(* ---- parameters of regions joined ---- *)
Sets(vs) == [k \in DOMAIN vs |-> Verts(Tri(vs[k]))]
Count(hs, p) == Cardinality({k \in DOMAIN hs : p \in hs[k]})
SumAt(hs, val, p) == TotalOf({k \in DOMAIN hs : p \in hs[k]}, LAMBDA k : val[k])
Exp(n) == Pow2(n)
RowOf(hs, p, r, col(_)) == LET n == Count(hs, p) want == {<<col(k), 1000000 \div n>> : k \in {j \in DOMAIN hs : p \in hs[j]}} IN
  Len(r) = Cardinality(want) /\ \A x \in want : \E y \in Rng(r) : y[1] = x[1] /\ Abs(y[2] - x[2]) <= 1
Near(x, hs, val, p) == Abs((x * Count(hs, p)) - (1000 * SumAt(hs, val, p))) <= Count(hs, p)
MergeEvent == Is("merge") /\ LET e == Ev.in o == Ev.out IN
  /\ \E hs \in {TLCEval(Sets(e.views))} :
       LET sg == [k \in DOMAIN e.par |-> Exp(e.par[k][1])] rh == [k \in DOMAIN e.par |-> Exp(e.par[k][2])] covered == \A p \in 0 .. mesh.np - 1 : Count(hs, p) > 0 IN
       (CASE e.how = "direct" -> /\ o.values = [i \in 1 .. 2 * Len(e.par) |-> 1000 * e.par[((i - 1) \div 2) + 1][((i - 1) % 2) + 1]]
                                 /\ Len(o.sigma) = mesh.np /\ Len(o.rho) = mesh.np /\ o.cols = <<2 * Len(e.par), 2 * Len(e.par)>>
                                 /\ \A p \in 0 .. mesh.np - 1 : RowOf(hs, p, o.sigma[p + 1], LAMBDA k : 2 * (k - 1)) /\ RowOf(hs, p, o.rho[p + 1], LAMBDA k : (2 * k) - 1)
          [] e.how = "exp" -> /\ Len(o.sigma) = mesh.np /\ Len(o.rho) = mesh.np /\ o.own
                              /\ \A p \in 0 .. mesh.np - 1 : Count(hs, p) > 0 => Near(o.sigma[p + 1], hs, sg, p) /\ Near(o.rho[p + 1], hs, rh, p)
          [] e.how = "steps" -> /\ Len(o.steps) = Len(e.views)
                                /\ (\A n \in DOMAIN o.steps : LET x == o.steps[n] h == SubSeq(hs, 1, n) IN
                                      Len(x.count) = mesh.np /\ Len(x.sigma) = mesh.np /\ Len(x.rho) = mesh.np /\
                                      \A p \in 0 .. mesh.np - 1 : x.count[p + 1] = Count(h, p) /\ Abs(x.sigma[p + 1] - (1000 * SumAt(h, sg, p))) <= 1 /\ Abs(x.rho[p + 1] - (1000 * SumAt(h, rh, p))) <= 1)
                                /\ (\A f \in Rng(o.ends) : /\ f.own /\ Len(f.sigma) = mesh.np /\ Len(f.rho) = mesh.np
                                      /\ \A p \in 0 .. mesh.np - 1 : Count(hs, p) > 0 => Near(f.sigma[p + 1], hs, sg, p) /\ Near(f.rho[p + 1], hs, rh, p))
          [] e.how = "wrong" -> o.refused
          [] OTHER -> FALSE) = TRUE
  /\ mesh' = mesh
(* ---- parameters kept in files ---- *)
KeepEvent == Is("keep") /\ LET e == Ev.in o == Ev.out IN
  /\ (o.array = e.want /\ o.loaded = e.want /\ o.members = e.members) = TRUE
  /\ mesh' = mesh
Next == MeshEvent \/ ViewEvent \/ DesignEvent \/ MergeEvent \/ KeepEvent
=============================================================================
