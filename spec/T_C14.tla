------------------------------- MODULE T_C14 -------------------------------
(* Recorded batches against the statistics of all points so far.              *)
EXTENDS TraceBase, Boxes
VARIABLES acc, mean, seen
vars == <<sc, l, acc, mean, seen>>
Init == TraceInit /\ acc = <<>> /\ mean = <<>> /\ seen = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Rng(s) == {s[i] : i \in DOMAIN s}
Out(g, p, f(_, _)) == f(g.lat, p.lat) \/ f(g.lon, p.lon)
(* points of a batch as <<box, value, uncertainty>> *)
Placed(e) == LET p == SelectSeq(e.pts, LAMBDA x : ~x.masked /\ x.day = e.day)
             IN [i \in DOMAIN p |-> LET w == e.locs[p[i].loc + 1] IN <<Box(e.grid, w.lat, w.lon), p[i].v, p[i].u>>]
InBox(s, b) == LET q == SelectSeq(s, LAMBDA x : x[1] = b) IN [i \in DOMAIN q |-> <<q[i][2], q[i][3]>>]
Same(c, st) == /\ c.count = st.count /\ c.wsum = st.wsum /\ c.psum = st.psum /\ c.min = st.min /\ c.max = st.max /\ c.umin = st.umin /\ c.umax = st.umax
Cells(got, s) == LET bs == {s[i][1] : i \in DOMAIN s} IN
  /\ Len(got) = Cardinality(bs) /\ {got[i].cell : i \in DOMAIN got} = bs
  /\ \A i \in DOMAIN got : Same(got[i], Of(InBox(s, got[i].cell)))
Means(got, s) == LET bs == {s[i][1] : i \in DOMAIN s} IN
  /\ Len(got) = Cardinality(bs) /\ {got[i].cell : i \in DOMAIN got} = bs
  /\ \A i \in DOMAIN got : LET st == Of(InBox(s, got[i].cell)) IN Abs((got[i].mean * st.psum) - (1000 * st.wsum)) <= st.psum
Contents(o, a, m) ==
  /\ Len(o.pairs) = Cardinality(DOMAIN a)
  /\ {<<o.pairs[i].source, o.pairs[i].observable>> : i \in DOMAIN o.pairs} = DOMAIN a
  /\ o.nfields = (7 * Cardinality(DOMAIN a)) + Cardinality(DOMAIN m) /\ o.nnames = o.nfields /\ o.shapes
  /\ \A i \in DOMAIN o.pairs : LET p == o.pairs[i] k == <<p.source, p.observable>> IN
       Cells(p.cells, a[k]) /\ p.hasmean = (k \in DOMAIN m) /\ (p.hasmean => Means(p.mean, m[k]))
Add == Is("add") /\ LET e == Ev.in o == Ev.out k == <<e.name, e.observable>> IN
  IF o.refused THEN /\ ((\E w \in Rng(e.locs) : Out(e.grid, w, May)) /\ Contents(o, acc, mean)) = TRUE
                    /\ UNCHANGED <<acc, mean, seen>>
  ELSE LET a == Put(acc, k, Get(acc, k, <<>>) \o Placed(e)) IN
       /\ (~(\E w \in Rng(e.locs) : Out(e.grid, w, Must)) /\ Contents(o, a, mean)) = TRUE
       /\ acc' = a /\ UNCHANGED <<mean, seen>>
Mean == Is("mean") /\ LET e == Ev.in o == Ev.out k == <<e.name, e.observable>> IN
  LET m == Put(mean, k, acc[k]) IN
  /\ (k \in DOMAIN acc /\ Contents(o, acc, m)) = TRUE
  /\ mean' = m /\ UNCHANGED <<acc, seen>>
(* operations on batches of a cube *)
Sum(s, f(_)) == LET t[i \in 0 .. Len(s)] == IF i = 0 THEN 0 ELSE t[i - 1] + f(s[i]) IN t[Len(s)]
BoxStats(c, s, m) ==
  LET q == SelectSeq(s, LAMBDA x : x[1] = c.cell) v(x) == x[2] sq(x) == x[2] * x[2] cs(x) == x[3] * x[3] dv(x) == (x[2] - m) * (x[2] - m)
      vs == {q[i][2] : i \in DOMAIN q}
  IN /\ c.whole /\ c.count = Len(q) /\ c.cnt = Len(q) /\ c.total = Sum(q, v) /\ c.sq = Sum(q, sq) /\ c.csq = Sum(q, cs) /\ c.dev = Sum(q, dv)
     /\ c.max \in vs /\ c.min \in vs /\ (\A x \in vs : x <= c.max /\ x >= c.min)
Boxes2(got, s, means) == LET bs == {s[i][1] : i \in DOMAIN s} IN
  /\ Len(got) = Cardinality(bs) /\ {got[i].cell : i \in DOMAIN got} = bs /\ \A i \in DOMAIN got : BoxStats(got[i], s, means[got[i].cell + 1])
Bin == Is("bin") /\ LET e == Ev.in o == Ev.out live == SelectSeq(e.pts, LAMBDA p : ~p.masked) IN
  IF o.refused THEN /\ ((\E p \in Rng(live) : Out(e.grid, p, May)) /\ Boxes2(o.cells, seen, e.means)) = TRUE
                    /\ UNCHANGED <<acc, mean, seen>>
  ELSE LET t == seen \o [i \in DOMAIN live |-> <<Box(e.grid, live[i].lat, live[i].lon), live[i].v, e.c>>] IN
       /\ (~(\E p \in Rng(live) : Out(e.grid, p, Must)) /\ Boxes2(o.cells, t, e.means)) = TRUE
       /\ seen' = t /\ UNCHANGED <<acc, mean>>
Next == Add \/ Mean \/ Bin
=============================================================================
