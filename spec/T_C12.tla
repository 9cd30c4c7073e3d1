------------------------------- MODULE T_C12 -------------------------------
EXTENDS TraceBase, SatGrid
Init == TraceInit
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Add(_, _)
Add(s, f) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + Add(s \ {x}, f)
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Root(x, m, hi) ELSE Root(x, lo, m)
ISqrt(x) == Root(x, 0, 40000)
(* reported u (unit 1/100) is the root of num / den^2, within t *)
Unc(u, num, den, t) == /\ (u > t => (u - t) * den * (u - t) * den <= 10000 * num) /\ (u + t) * den * (u + t) * den >= 10000 * num
UncRms(u, num, n, t) == /\ (u > t => (u - t) * (u - t) * n <= 10000 * num) /\ (u + t) * (u + t) * n >= 10000 * num
Stats(e, r, t) ==
  LET fs == e.files ob == Where(fs, Valid(fs, e.q), e.grid, r.cell) n == Cardinality(ob)
      vs == [o \in ob |-> Px(fs, o).v] s1 == Add(ob, vs) s2 == Add(ob, [o \in ob |-> vs[o] * vs[o]])
      tot == Cardinality(Where(fs, Total(fs, e.q), e.grid, r.cell))
      sq(f) == Add(ob, [o \in ob |-> LET p == Px(fs, o) u == IF f = "ran" THEN p.ran ELSE IF f = "atm" THEN p.atm ELSE p.sfc IN u * u])
      num == (n * s2) - (s1 * s1)
  IN /\ r.count = n /\ (e.full => r.total = tot)
     /\ r.has = (n > 0)
     /\ (n > 0 => /\ Abs(r.min - (100 * (CHOOSE x \in {vs[o] : o \in ob} : \A o \in ob : vs[o] >= x))) <= t
                  /\ Abs(r.max - (100 * (CHOOSE x \in {vs[o] : o \in ob} : \A o \in ob : vs[o] <= x))) <= t
                  /\ Abs((r.mean * n) - (100 * s1)) <= t * n
                  /\ Unc(r.ran, sq("ran"), n, t) /\ UncRms(r.atm, sq("atm"), n, t) /\ UncRms(r.sfc, sq("sfc"), n, t)
                  /\ UncRms(r.sys, Add(ob, [o \in ob |-> fs[o[1]].sys * fs[o[1]].sys]), n, t))
     /\ (e.full => /\ r.hasvar = (n > 1) /\ (n <= 1 => ~r.hasspl)
                   /\ (n > 1 => Abs((r.var * n * (n - 1)) - (10 * num)) <= (n * (n - 1) * t) + (num \div 500))
                   /\ (n > 1 /\ tot > 1 /\ tot >= n =>
                        r.hasspl /\ LET s == ISqrt(((100 * num) \div (n * (n - 1))) * 100) IN Abs((r.spl * (tot - 1)) - ((tot - n) * s)) <= (t * (tot - 1)) + ((tot - n) * (2 + (s \div 500)))))
Axis(a, got) == IF Len(got) = 0 THEN TRUE ELSE got = [i \in 1 .. a.n |-> (2 * a.start) + (((2 * i) - 1) * a.inc)]
Counted(e) == IF e.full THEN Valid(e.files, e.q) \cup Total(e.files, e.q) ELSE Valid(e.files, e.q)
Outside(e, o, f(_, _)) == LET p == Px(e.files, o) IN f(e.grid.lat, p.lat) \/ f(e.grid.lon, p.lon)
Crowded(e) == ~e.full /\ \E c \in Cells(e.files, Valid(e.files, e.q), e.grid) : Cardinality(Where(e.files, Valid(e.files, e.q), e.grid, c)) > e.max
Run == Is("run") /\ LET e == Ev.in o == Ev.out obs == Counted(e) IN
  (IF o.refused THEN Crowded(e) \/ \E p \in obs : Outside(e, p, May)
   ELSE /\ ~\E p \in obs : Outside(e, p, Must)
        /\ ~Crowded(e)
        /\ (e.full => o.status = [i \in DOMAIN e.files |-> Status(e.files[i])])
        /\ o.none = (Good(e.files) = {})
        /\ Set([i \in DOMAIN o.cells |-> o.cells[i].cell]) = Cells(e.files, obs, e.grid) /\ Len(o.cells) = Cardinality(Cells(e.files, obs, e.grid))
        /\ \A i \in DOMAIN o.cells : Stats(e, o.cells[i], e.tol)
        /\ (~o.none => Axis(e.grid.lat, o.lats) /\ Axis(e.grid.lon, o.lons))) = TRUE
Mean == Is("mean") /\ LET e == Ev.in o == Ev.out obs == Counted(e) IN
  (IF o.refused THEN \E p \in obs : Outside(e, p, May)
   ELSE /\ ~\E p \in obs : Outside(e, p, Must)
        /\ Set([i \in DOMAIN o.cells |-> o.cells[i].cell]) = Cells(e.files, obs, e.grid)
        /\ \A i \in DOMAIN o.cells : LET r == o.cells[i] ob == Where(e.files, obs, e.grid, r.cell) n == Cardinality(ob)
             IN r.count = n /\ Abs((r.mean * n) - (100 * Add(ob, [x \in ob |-> Px(e.files, x).v]))) <= e.tol * n) = TRUE
Next == Run \/ Mean
=============================================================================
