------------------------------ MODULE Analysis ------------------------------
(* Back-fitting of an additive model (C09) and accumulation of measurements  *)
(* into linear systems (C11).                                                *)
(*                                                                           *)
(* A component is [kind, n, prior, nl, init, unc]:                           *)
(*   kind "st"  one state for all times, measurements kept per slot of times *)
(*   kind "sp"  one state per time, solved as soon as the time is complete   *)
(*   kind "dl"  one state per time, measurements kept, solved later          *)
(* An observation is [y, p, h]: value, precision and one row of design        *)
(* coefficients per component.  Everything is an integer except states, which *)
(* are fixed point numbers with S units per one; a solution is accepted when  *)
(* it satisfies the normal equations up to the rounding of recorded states.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == 10000

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Abs(x) == IF x < 0 THEN -x ELSE x
Dot(a, b) == SumSeq([i \in 1 .. Len(a) |-> a[i] * b[i]])
AbsSum(a) == SumSeq([i \in 1 .. Len(a) |-> Abs(a[i])])
Max2(a, b) == IF a > b THEN a ELSE b

(* the mildly nonlinear response of nonlinear elements: slope 2 below zero *)
Slope(nl, x) == IF nl /\ x < 0 THEN 2 ELSE 1

None == <<>>
(* solutions: st: a vector or None;  sp, dl: a sequence of [t, x] *)
AtTime(sol, t) == LET m == {i \in 1 .. Len(sol) : sol[i].t = t} IN IF m = {} THEN None ELSE sol[CHOOSE i \in m : TRUE].x
Times(sol) == {sol[i].t : i \in 1 .. Len(sol)}
StateOf(comp, sol, t) == IF comp.kind = "st" THEN sol ELSE AtTime(sol, t)
(* the state a component contributes with before it has a solution *)
Effective(comp, sol, t) ==
  LET x == StateOf(comp, sol, t)
  IN IF x # None THEN x
     ELSE IF comp.nl /\ comp.kind = "st" THEN [k \in 1 .. comp.n |-> S * comp.init[k]]
     ELSE [k \in 1 .. comp.n |-> 0]
Response(comp, row, x) == SumSeq([k \in 1 .. comp.n |-> row[k] * Slope(comp.nl, x[k]) * x[k]])
Predict(comp, sol, t, row) == Response(comp, row, Effective(comp, sol, t))
(* sensitivity of a prediction to the rounding of states *)
Noise(comp, row) == (IF comp.nl THEN 2 ELSE 1) * AbsSum(row)

(* what one observation contributes to component c: rows J, residual r, error bound e *)
Contribution(comps, sols, c, t, o) ==
  LET comp == comps[c]
      lin == IF comp.nl THEN IF StateOf(comp, sols[c], t) # None THEN StateOf(comp, sols[c], t) ELSE [k \in 1 .. comp.n |-> S * comp.init[k]] ELSE None
      J == [k \in 1 .. comp.n |-> o.h[c][k] * (IF comp.nl THEN Slope(TRUE, lin[k]) ELSE 1)]
      others == {d \in 1 .. Len(comps) : d # c}
      off == SumSeq([d \in 1 .. Len(comps) |-> IF d = c THEN 0 ELSE Predict(comps[d], sols[d], t, o.h[d])])
      own == IF comp.nl THEN Response(comp, o.h[c], lin) ELSE 0
  IN [J |-> J, p |-> o.p, r |-> S * o.y - off - own,
      e |-> SumSeq([d \in 1 .. Len(comps) |-> IF d = c /\ ~comp.nl THEN 0 ELSE Noise(comps[d], o.h[d])])]

(* a measurement: precision matrix, information vector and its error bound *)
Zero(n) == [A |-> [i \in 1 .. n |-> [j \in 1 .. n |-> 0]], b |-> [i \in 1 .. n |-> 0], e |-> [i \in 1 .. n |-> 0]]
Plus(m, q) == LET n == Len(m.b) IN
  [A |-> [i \in 1 .. n |-> [j \in 1 .. n |-> m.A[i][j] + q.A[i][j]]],
   b |-> [i \in 1 .. n |-> m.b[i] + q.b[i]], e |-> [i \in 1 .. n |-> m.e[i] + q.e[i]]]
One(k) == LET n == Len(k.J) IN
  [A |-> [i \in 1 .. n |-> [j \in 1 .. n |-> k.p * k.J[i] * k.J[j]]],
   b |-> [i \in 1 .. n |-> k.p * k.J[i] * k.r], e |-> [i \in 1 .. n |-> k.p * Abs(k.J[i]) * k.e]]
RECURSIVE PlusAll(_, _)
PlusAll(n, ms) == IF ms = <<>> THEN Zero(n) ELSE Plus(Head(ms), PlusAll(n, Tail(ms)))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* the measurement of component c from all sources of one time: a sum over *)
(* observations, whatever their order and division into sources             *)
Measure(comps, sols, c, t, sources) ==
  LET obs == Flat(sources)
  IN PlusAll(comps[c].n, [i \in 1 .. Len(obs) |-> One(Contribution(comps, sols, c, t, obs[i]))])
(* of several times *)
MeasureTimes(comps, sols, c, parts) ==
  PlusAll(comps[c].n, [i \in 1 .. Len(parts) |-> Measure(comps, sols, c, parts[i].t, parts[i].sources)])

(* x solves (prior + A) x = b, up to rounding *)
Solves(prior, m, x) ==
  LET n == Len(m.b)
  IN /\ Len(x) = n
     /\ \A i \in 1 .. n : LET row == [j \in 1 .. n |-> prior[i][j] + m.A[i][j]]
                          IN Abs(Dot(row, x) - m.b[i]) <= AbsSum(row) + m.e[i] + 2
Minus(x, y) == [i \in 1 .. Len(x) |-> x[i] - y[i]]

Det(A) == CASE Len(A) = 1 -> A[1][1]
            [] Len(A) = 2 -> A[1][1] * A[2][2] - A[1][2] * A[2][1]
            [] OTHER -> A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2]) - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1]) + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
Minor(A, k) == LET n == Len(A) IN
  IF n = 1 THEN 1 ELSE LET ix(i) == IF i < k THEN i ELSE i + 1 IN Det([i \in 1 .. n - 1 |-> [j \in 1 .. n - 1 |-> A[ix(i)][ix(j)]]])
(* v: variances, S units per one: v = diagonal of the inverse of prior + A *)
Variances(prior, m, v) ==
  LET n == Len(m.b)
      A == [i \in 1 .. n |-> [j \in 1 .. n |-> prior[i][j] + m.A[i][j]]]
  IN Len(v) = n /\ \A k \in 1 .. n : Abs(v[k] * Det(A) - S * Minor(A, k)) <= 2 * Det(A)
=============================================================================
