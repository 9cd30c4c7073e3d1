------------------------------- MODULE T_C21 -------------------------------
EXTENDS TraceBase, Regrid
VARIABLES sys, pj
(* sys: the grid and components of the scenario; pj: the projector *)
vars == <<sys, pj>>
Init == TraceInit /\ sys = <<>> /\ pj = <<>>
Near(a, b, e) == Abs(a - b) <= e
(* the state of a component at a time: <<>> when there is none *)
At(comp, t, what) == LET S == {i \in 1 .. Len(comp.at) : comp.kind = "st" \/ comp.at[i].t = t} IN
  IF S = {} THEN <<>> ELSE comp.at[CHOOSE i \in S : TRUE][what]
Comp(c) == sys.comps[c]
NC == Len(sys.comps)
Mean(g, cell, t, c, what, abs) == Mean100(g, cell, c, t, At(Comp(c), t, what), abs)
Err(g, cell, t, c, what) == Bound(g, cell, c, t, At(Comp(c), t, what))
Value(g, cell, t, o) == Near(o, Sum([c \in 1 .. NC |-> Mean(g, cell, t, c, "x", FALSE)]), Sum([c \in 1 .. NC |-> Err(g, cell, t, c, "x")]))
(* variances add over components *)
RootSum(g, cell, t) == Isqrt(Sum([c \in 1 .. NC |-> LET m == Mean(g, cell, t, c, "s", TRUE) IN m * m]))
Spread(g, cell, t, o) == Near(o, RootSum(g, cell, t), 2 + Sum([c \in 1 .. NC |-> Err(g, cell, t, c, "s")]))
(* at points there is no averaging *)
GridOf(e) == IF e.flag = "POINTWISE" THEN [sys.g EXCEPT !.n = 1, !.m = 1] ELSE sys.g
GridOk(e, o) ==
  IF e.field \notin {"MAP", "post_STD", "prior_STD"} \/ e.flag \notin {"POINTWISE", "GRID_CELL_AREA_AVERAGE"} \/ e.field = "prior_STD" THEN o.status = "error"
  ELSE /\ o.status = "ok" /\ Len(o.v) = Cells(sys.g)
       /\ \A cell \in 1 .. Cells(sys.g) : IF e.field = "MAP" THEN Value(GridOf(e), cell, e.t, o.v[cell]) ELSE Spread(GridOf(e), cell, e.t, o.v[cell])
(* the fraction of the prior variance that is left, only for a single spatial component; compared where little cancels *)
Spatial == {c \in 1 .. NC : Comp(c).kind = "sp"}
FractionOk(e, o) == o.status = "ok" /\ Len(o.v) = Cells(sys.g) /\
  IF Cardinality(Spatial) # 1 THEN \A cell \in 1 .. Cells(sys.g) : o.v[cell] = -32768
  ELSE LET c == CHOOSE c \in Spatial : TRUE IN \A cell \in 1 .. Cells(sys.g) :
    LET post == Mean(sys.g, cell, e.t, c, "s", TRUE)
        prior == Mean100(sys.g, cell, c, e.t, Comp(c).ps, FALSE)     \* prior standard deviations, in halves (projected with their signs)
        whole == Mean100(sys.g, cell, c, e.t, Comp(c).ps, TRUE)
        exp == (((2 * post * 100) \div Max2(prior, 1)) * ((2 * post * 100) \div Max2(prior, 1))) \div 100     \* in hundredths
    IN IF 4 * prior < 3 * whole THEN TRUE ELSE (4 * Abs(o.v[cell] - exp)) <= exp + 24
Grid == Is("system") /\ sys' = Ev.in /\ UNCHANGED pj
Gridded == Is("grid") /\ GridOk(Ev.in, Ev.out) = TRUE /\ UNCHANGED vars
Fraction == Is("fraction") /\ FractionOk(Ev.in, Ev.out) = TRUE /\ UNCHANGED vars
(* ------------------------------------------------------------ the projector *)
None == <<>>
PNew == Is("pnew") /\ pj' = [comp |-> 0, time |-> Ev.in.t, des |-> None, st |-> None] /\ UNCHANGED sys
PSet == Is("set") /\ Ev.out.status = "ok" /\ pj' = [pj EXCEPT !.comp = Ev.in.c, !.st = <<Ev.in.c, pj.time>>, !.des = IF Ev.in.keep THEN @ ELSE None] /\ UNCHANGED sys
PTime == Is("time") /\ Ev.out.status = "ok" /\ pj' = [pj EXCEPT !.time = Ev.in.t, !.des = IF Ev.in.keep THEN @ ELSE None] /\ UNCHANGED sys
PEval == Is("eval") /\ (IF pj.comp = 0 THEN Ev.out.status = "error" /\ pj' = pj ELSE Ev.out.status = "ok" /\ pj' = [pj EXCEPT !.des = <<pj.comp, pj.time>>]) /\ UNCHANGED sys
PLoad == Is("load") /\ Ev.out.status = "ok" /\ pj' = [pj EXCEPT !.st = None] /\ UNCHANGED sys
Read(what) == IF pj.st = None THEN <<>> ELSE At(Comp(pj.st[1]), pj.st[2], what)
Proj(cell, x) == Mean100(sys.g, cell, pj.des[1], pj.des[2], x, FALSE)
PErr(cell, x) == Bound(sys.g, cell, pj.des[1], pj.des[2], x)
(* samples: one state per sample *)
Samples(cell, S) == [j \in 1 .. Len(S) |-> Proj(cell, S[j])]
SErr(cell, S) == LET e == [j \in 1 .. Len(S) |-> PErr(cell, S[j])] IN e[CHOOSE j \in 1 .. Len(S) : \A k \in 1 .. Len(S) : e[k] <= e[j]]
Sq(x) == x * x
Rms(X) == Isqrt(Sum([j \in 1 .. Len(X) |-> Sq(X[j])]) \div Len(X))
Std(X) == LET m == Sum(X) \div Len(X) IN Isqrt(Sum([j \in 1 .. Len(X) |-> Sq(X[j] - m)]) \div Len(X))
(* indices of samples count from zero and may repeat *)
Chosen(e, S) == IF e.all THEN S ELSE [i \in 1 .. Len(e.ix) |-> S[e.ix[i] + 1]]
OutOk(e, o) ==
  LET S == Read(IF e.prior THEN "psmp" ELSE "smp") IN
  IF e.what = "value" THEN
    IF Read("x") = <<>> THEN o.status = "none" ELSE IF pj.des = None THEN o.status = "error"
    ELSE o.status = "ok" /\ Len(o.v) = Cells(sys.g) /\ \A cell \in 1 .. Cells(sys.g) : Near(o.v[cell], Proj(cell, Read("x")), PErr(cell, Read("x")))
  ELSE IF S = <<>> THEN o.status = "none"
  ELSE IF pj.des = None THEN o.status = "error"
  ELSE IF e.what = "samples" THEN LET C == Chosen(e, S) IN
    o.status = "ok" /\ Len(o.m) = Cells(sys.g) /\ \A cell \in 1 .. Cells(sys.g) : Len(o.m[cell]) = Len(C) /\ \A j \in 1 .. Len(C) : Near(o.m[cell][j], Proj(cell, C[j]), PErr(cell, C[j]))
  ELSE o.status = "ok" /\ Len(o.v) = Cells(sys.g) /\ \A cell \in 1 .. Cells(sys.g) :
    Near(o.v[cell], IF e.what = "std" THEN Std(Samples(cell, S)) ELSE Rms(Samples(cell, S)), 3 + (2 * SErr(cell, S)))
POut == Is("out") /\ OutOk(Ev.in, Ev.out) = TRUE /\ UNCHANGED vars
Next == Grid \/ Gridded \/ Fraction \/ PNew \/ PSet \/ PTime \/ PEval \/ PLoad \/ POut
=============================================================================
