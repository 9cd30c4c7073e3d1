------------------------------- MODULE T_Ana -------------------------------
EXTENDS TraceBase, Analysis
VARIABLES comps, sols, vrs, smp, meas
vars == <<comps, sols, vrs, smp, meas>>
Init == TraceInit /\ comps = <<>> /\ sols = <<>> /\ vrs = <<>> /\ smp = <<>> /\ meas = <<>>
N == Len(comps)
Blank == [c \in 1 .. N |-> <<>>]
Set(s) == {s[i] : i \in DOMAIN s}
HasObs(part) == Flat(part.sources) # <<>>
NonEmpty(parts) == {i \in DOMAIN parts : HasObs(parts[i])}
Slot(ms, t) == LET m == {i \in DOMAIN ms : ms[i].t = t} IN IF m = {} THEN <<>> ELSE <<ms[CHOOSE i \in m : TRUE].m>>
PutSlot(ms, t, m) == IF Slot(ms, t) = <<>> THEN Append(ms, [t |-> t, m |-> m]) ELSE [i \in DOMAIN ms |-> IF ms[i].t = t THEN [t |-> t, m |-> m] ELSE ms[i]]
RECURSIVE PutSlots(_, _, _, _, _)
PutSlots(ms, cs, ss, c, parts) == IF parts = <<>> THEN ms
  ELSE PutSlots(PutSlot(ms, Head(parts).t, Measure(cs, ss, c, Head(parts).t, Head(parts).sources)), cs, ss, c, Tail(parts))
(* measurements of component c after taking in parts; a component spanning    *)
(* time keeps one measurement for all times taken in together                 *)
MeasAfter(ss, c, parts, together) ==
  CASE comps[c].kind = "sp" -> meas[c]
    [] comps[c].kind = "st" /\ together -> PutSlot(meas[c], parts[Len(parts)].t, MeasureTimes(comps, ss, c, parts))
    [] OTHER -> PutSlots(meas[c], comps, ss, c, parts)
InitState(c) == [k \in 1 .. comps[c].n |-> S * comps[c].init[k]]
(* nonlinear components keep the point they are linearised about *)
Linearised(c, sol, parts) ==
  IF ~comps[c].nl THEN sol
  ELSE IF comps[c].kind = "st" THEN IF sol = None /\ NonEmpty(parts) # {} THEN InitState(c) ELSE sol
  ELSE LET add == {parts[i].t : i \in NonEmpty(parts)} \ Times(sol)
       IN sol \o [i \in 1 .. Cardinality(add) |-> [t |-> CHOOSE t \in add : Cardinality({u \in add : u < t}) = i - 1, x |-> InitState(c)]]
Same(c, a, b) == IF comps[c].kind = "st" THEN a = b ELSE Set(a) = Set(b)
AtV(c, v, t) == IF comps[c].kind = "st" THEN v ELSE AtTime(v, t)
StdOk(v) == \A k \in DOMAIN v.v : Abs(v.s[k] * v.s[k] - 100 * v.v[k]) <= v.s[k] + 101
UncOk(c, m, v) == IF comps[c].unc THEN v # None /\ Variances(comps[c].prior, m, v.v) /\ Len(v.s) = comps[c].n /\ StdOk(v) ELSE v = None
SmpOk(c, z) == IF comps[c].smp > 0 THEN Len(z) = comps[c].n /\ \A k \in DOMAIN z : Len(z[k]) = comps[c].smp ELSE z = None
(* per-time results: exactly the given times were solved, others are as before *)
PerTime(c, ts, M(_), old, new, oldv, newv, olds, news) ==
  /\ Times(new) = Times(old) \cup ts /\ Len(new) = Cardinality(Times(new))
  /\ \A t \in Times(old) \ ts : AtTime(new, t) = AtTime(old, t) /\ AtTime(newv, t) = AtTime(oldv, t) /\ AtTime(news, t) = AtTime(olds, t)
  /\ \A t \in ts : /\ Solves(comps[c].prior, M(t), IF comps[c].nl THEN Minus(AtTime(new, t), AtTime(old, t)) ELSE AtTime(new, t))
                   /\ UncOk(c, M(t), AtTime(newv, t)) /\ SmpOk(c, AtTime(news, t))
(* result of completing parts for component c *)
TookIn(ss, c, parts, new, newv, news) ==
  IF comps[c].kind = "sp"
  THEN LET ts == {parts[i].t : i \in NonEmpty(parts)}
           M(t) == LET i == CHOOSE i \in NonEmpty(parts) : parts[i].t = t IN Measure(comps, ss, c, t, parts[i].sources)
       IN PerTime(c, ts, M, ss[c], new[c], vrs[c], newv[c], smp[c], news[c])
  ELSE Same(c, new[c], Linearised(c, ss[c], parts)) /\ Same(c, newv[c], vrs[c]) /\ Same(c, news[c], smp[c])
(* result of solving component c from its measurements ms, linearised at lin *)
Solved(c, ms, lin, new, newv, news) ==
  CASE comps[c].kind = "sp" -> Same(c, new[c], lin) /\ Same(c, newv[c], vrs[c]) /\ Same(c, news[c], smp[c])
    [] comps[c].kind = "st" ->
         LET m == PlusAll(comps[c].n, [i \in DOMAIN ms |-> ms[i].m])
         IN IF comps[c].nl /\ lin = None THEN new[c] = None
            ELSE /\ Solves(comps[c].prior, m, IF comps[c].nl THEN Minus(new[c], lin) ELSE new[c])
                 /\ UncOk(c, m, newv[c]) /\ SmpOk(c, news[c])
    [] OTHER ->
         LET M(t) == Slot(ms, t)[1]
             slots == {ms[i].t : i \in DOMAIN ms}
             (* a time without observations may be solved (giving the prior) or left alone *)
             ts == {t \in slots : M(t).A # Zero(comps[c].n).A \/ AtTime(new[c], t) # AtTime(lin, t) \/ AtTime(newv[c], t) # AtTime(vrs[c], t) \/ AtTime(news[c], t) # AtTime(smp[c], t)}
         IN PerTime(c, ts, M, lin, new[c], vrs[c], newv[c], smp[c], news[c])
Others(c, new, newv, news) == \A d \in 1 .. N : d # c => Same(d, new[d], sols[d]) /\ Same(d, newv[d], vrs[d]) /\ Same(d, news[d], smp[d])
Advance == sols' = Ev.out.sols /\ vrs' = Ev.out.vrs /\ smp' = Ev.out.smp /\ comps' = comps
Out == Ev.out.ok /\ Len(Ev.out.sols) = N /\ Len(Ev.out.vrs) = N /\ Len(Ev.out.smp) = N

Config == /\ Is("config") /\ comps' = Ev.in.comps /\ LET e == [c \in 1 .. Len(Ev.in.comps) |-> <<>>] IN sols' = e /\ vrs' = e /\ smp' = e /\ meas' = e
TakeIn == /\ Is("take") /\ (Out) = TRUE
          /\ LET c == Ev.in.c IN
             /\ (TookIn(sols, c, Ev.in.parts, Ev.out.sols, Ev.out.vrs, Ev.out.smp)) = TRUE
             /\ (Others(c, Ev.out.sols, Ev.out.vrs, Ev.out.smp)) = TRUE
             /\ meas' = [meas EXCEPT ![c] = MeasAfter(sols, c, Ev.in.parts, Ev.in.together)]
          /\ Advance
SolveC == /\ Is("solve") /\ (Out) = TRUE
          /\ LET c == Ev.in.c IN
             /\ (Solved(c, meas[c], sols[c], Ev.out.sols, Ev.out.vrs, Ev.out.smp)) = TRUE
             /\ (Others(c, Ev.out.sols, Ev.out.vrs, Ev.out.smp)) = TRUE
          /\ meas' = meas /\ Advance
(* take in all times and solve, for one component given the states ss of all *)
Fit(ss, c, parts) ==
  LET ms == MeasAfter(ss, c, parts, FALSE) lin == Linearised(c, ss[c], parts)
  IN IF comps[c].kind = "sp" THEN TookIn(ss, c, parts, Ev.out.sols, Ev.out.vrs, Ev.out.smp)
     ELSE Solved(c, ms, lin, Ev.out.sols, Ev.out.vrs, Ev.out.smp)
Component == /\ Is("component") /\ (Out) = TRUE
             /\ LET c == Ev.in.c IN
                /\ (Fit(sols, c, Ev.in.parts)) = TRUE
                /\ (Others(c, Ev.out.sols, Ev.out.vrs, Ev.out.smp)) = TRUE
                /\ meas' = [meas EXCEPT ![c] = MeasAfter(sols, c, Ev.in.parts, FALSE)]
             /\ Advance
(* one sweep over all components: each one sees the new states of those before it *)
Seen(c) == [d \in 1 .. N |-> IF d < c THEN Ev.out.sols[d] ELSE sols[d]]
Sweep == /\ Is("sweep") /\ (Out) = TRUE
         /\ \A c \in 1 .. N : (Fit(Seen(c), c, Ev.in.parts)) = TRUE
         /\ meas' = [c \in 1 .. N |-> MeasAfter(Seen(c), c, Ev.in.parts, FALSE)]
         /\ Advance
(* observations of another time among those of one time are refused *)
Refused == /\ Is("refused") /\ Ev.out.ok = FALSE
           /\ (\A c \in 1 .. N : Same(c, Ev.out.sols[c], sols[c]) /\ Same(c, Ev.out.vrs[c], vrs[c])) = TRUE
           /\ UNCHANGED vars
(* merged measurement of a component, as often as asked *)
Merge == /\ Is("merge") /\ UNCHANGED vars
         /\ LET c == Ev.in.c m == PlusAll(comps[c].n, [i \in DOMAIN meas[c] |-> meas[c][i].m])
            IN IF Ev.out.none THEN (m.A = Zero(comps[c].n).A) = TRUE
               ELSE Ev.out.A = m.A /\ (\A i \in DOMAIN m.b : Abs(Ev.out.b[i] - m.b[i]) <= m.e[i] + 2) = TRUE
(* fields: sum of components, uncertainties in quadrature, samples summed one by one *)
Stds(c, t) == LET v == AtV(c, vrs[c], t) IN IF v = None THEN [k \in 1 .. comps[c].n |-> 0] ELSE v.s
AbsDot(row, s) == SumSeq([k \in DOMAIN row |-> Abs(row[k]) * s[k]])
Sq(x) == x * x
Value(row, t) == SumSeq([c \in 1 .. N |-> Predict(comps[c], sols[c], t, row[c])])
ValueNoise(row) == SumSeq([c \in 1 .. N |-> Noise(comps[c], row[c])]) + 1
USq(row, t) == SumSeq([c \in 1 .. N |-> Sq(AbsDot(row[c], Stds(c, t)))])
UNoise(row, t, u) == SumSeq([c \in 1 .. N |-> AbsDot(row[c], Stds(c, t)) * AbsSum(row[c]) + Sq(AbsSum(row[c]))]) + u + 1
SmpAt(c, t, k, j) == LET z == AtV(c, smp[c], t) IN IF z = None THEN 0 ELSE z[k][j]
Drawn(row, t, j) == SumSeq([c \in 1 .. N |-> SumSeq([k \in 1 .. comps[c].n |-> row[c][k] * SmpAt(c, t, k, j)])])
Eval == /\ Is("eval") /\ UNCHANGED vars
        /\ LET t == Ev.in.t rows == Ev.in.rows o == Ev.out IN
           /\ Len(o.v) = Len(rows)
           /\ (\A i \in DOMAIN rows : Abs(o.v[i] - Value(rows[i], t)) <= ValueNoise(rows[i])) = TRUE
           /\ Len(o.u) = Len(rows)
           /\ (\A i \in DOMAIN rows : Abs(Sq(o.u[i]) - USq(rows[i], t)) <= UNoise(rows[i], t, o.u[i])) = TRUE
           /\ (o.z = <<>> \/ Len(o.z) = Len(rows)) = TRUE
           /\ (o.z = <<>> \/ \A i \in DOMAIN rows : \A j \in DOMAIN o.z[i] : Abs(o.z[i][j] - Drawn(rows[i], t, j)) <= ValueNoise(rows[i])) = TRUE
           /\ (o.z = <<>> \/ \A i \in DOMAIN rows : Len(o.z[i]) = Ev.in.samples) = TRUE
(* C11: measurements added up directly, in any order and grouping (exact) *)
Exact(obs, n) == PlusAll(n, [i \in DOMAIN obs |-> One([J |-> obs[i].h, p |-> obs[i].p, r |-> obs[i].y, e |-> 0])])
System == /\ Is("system") /\ UNCHANGED vars
          /\ LET m == Exact(Ev.in.obs, Ev.in.n) ms == [m EXCEPT !.b = [i \in DOMAIN m.b |-> S * m.b[i]]]
             IN /\ Ev.out.A = m.A /\ Ev.out.b = m.b
                /\ (Solves(Ev.in.prior, ms, Ev.out.x)) = TRUE
                /\ (Solves(Ev.in.prior, ms, Ev.out.xcg)) = TRUE
                /\ (Variances(Ev.in.prior, ms, Ev.out.v)) = TRUE
Next == Config \/ TakeIn \/ SolveC \/ Component \/ Sweep \/ Refused \/ Merge \/ Eval \/ System
=============================================================================
