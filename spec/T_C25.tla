------------------------------- MODULE T_C25 -------------------------------
EXTENDS TraceBase, Sources
Init == TraceInit
Wrapped(p) == <<p[1], IF p[2] >= 18000 THEN p[2] - 36000 ELSE p[2]>>
Places(q) == [i \in DOMAIN q |-> Wrapped(q[i])]
Mesh(lats, lons) == [k \in 1..(Len(lats) * Len(lons)) |-> <<lats[((k - 1) \div Len(lons)) + 1], lons[((k - 1) % Len(lons)) + 1]>>]
(* stations *)
Land == /\ Is("land")
        /\ LET f == Ev.in.file o == Ev.in.o D == DaysOf(f, o) IN
           /\ Ev.out.none = (o.day >= 0 /\ Len(D) = 0)
           /\ ~Ev.out.none => (Delivered(f, o, Ev.out.q)) = TRUE
           /\ (Ev.out.lookup = Places(f.loc)) = TRUE
           /\ Ev.out.nst = Stations(f) /\ Ev.out.ndays = (IF o.day < 0 THEN Len(f.days) ELSE 1) /\ Ev.out.n = Ev.out.nst * Ev.out.ndays
           /\ Ev.out.observables \in {<<"Tmin", "Tmax">>, <<"Tmax", "Tmin">>}
Indices(n) == [i \in 1..n |-> i]
LandDay == /\ Is("landday")
           /\ LET f == Ev.in.file o == Ev.in.o D == DaysOf(f, o) w == Ev.out.w IN
              /\ Ev.out.ok = (Len(D) > 0 /\ ~Ev.in.moved) /\ Ev.out.ok = Ev.out.exists
              /\ Ev.out.ok => LET e == SelectSeq(Indices(Stations(f)), LAMBDA s : ~Hidden(f, o, D[1], s)) IN
                    (Len(w) = Len(e) /\ \A k \in DOMAIN w : w[k].p = e[k] - 1 /\ Changed(f, o, D[1], e[k], w[k].v) /\ Uncertain(f, o, e[k], w[k].u)) = TRUE
(* the table of places made from a file *)
Lookup == Is("lookup") /\ (Ev.out.lookup = IF Ev.in.kind = "mesh" THEN Mesh(Ev.in.lats, Ev.in.lons) ELSE Places(Ev.in.loc)) = TRUE
(* ships *)
ShipsEv == /\ Is("ships") /\ (Ships(Ev.in.rs, Ev.out.q)) = TRUE /\ Ev.out.n = Len(Ev.in.rs)
           /\ (Ev.out.lookup = [i \in DOMAIN Ev.in.rs |-> <<Ev.in.rs[i].la, Ev.in.rs[i].lo>>]) = TRUE
ShipsDay == /\ Is("shipsday")
            /\ LET rs == Ev.in.rs e == SelectSeq(Indices(Len(rs)), LAMBDA i : rs[i].t = Ev.in.day) w == Ev.out.w IN
               /\ (Len(w) = Len(e) /\ \A k \in DOMAIN w : w[k].p = e[k] - 1 /\ Near(w[k].v, 20 * rs[e[k]].c, 1) /\ Near(w[k].u, 11000, 1)) = TRUE
               /\ (Ev.out.lookup = [i \in DOMAIN rs |-> <<rs[i].la, rs[i].lo>>]) = TRUE /\ Ev.out.match
(* lakes *)
LakesEv == Is("lakes") /\ (Lakes(Ev.in.rs, Ev.out.lookup, Ev.out.q)) = TRUE /\ Ev.out.n = Len(Ev.in.rs)
LakesDay == /\ Is("lakesday")
            /\ LET rs == Ev.in.rs e == SelectSeq(Indices(Len(rs)), LAMBDA i : rs[i].t = Ev.in.day) w == Ev.out.w t == Ev.out.lookup IN
               /\ Ev.out.ok = ~Ev.in.moved /\ Ev.out.ok = Ev.out.exists
               /\ Ev.out.ok => (Len(w) = Len(e) /\ \A k \in DOMAIN w : w[k].p + 1 \in DOMAIN t /\ t[w[k].p + 1] = <<rs[e[k]].la, rs[e[k]].lo>> /\ Near(w[k].v, 20 * rs[e[k]].c, 1) /\ Near(w[k].u, 50000, 1)) = TRUE
(* gridded fields *)
FieldEv == /\ Is("field") /\ (Ev.out.lookup = Mesh(Ev.in.lats, Ev.in.lons)) = TRUE /\ Ev.out.n = Len(Ev.in.f.v)
           /\ (Field(Ev.in.f, Ev.out.q)) = TRUE
MeanEv == Is("mean") /\ (Ev.out.lookup = Mesh(Ev.in.lats, Ev.in.lons)) = TRUE /\ (Mean(Ev.in.f, Ev.in.g, Ev.out.q)) = TRUE
FieldDay == /\ Is("fieldday")
            /\ LET f == Ev.in.f e == SelectSeq(Indices(Len(f.v)), LAMBDA i : f.v[i] # MISS) w == Ev.out.w IN
               /\ Ev.out.ok = ~Ev.in.moved /\ Ev.out.ok = Ev.out.exists
               /\ Ev.out.ok => (IF f.t # Ev.in.day THEN Len(w) = 0 ELSE Len(w) = Len(e) /\ \A k \in DOMAIN w : w[k].p = e[k] - 1 /\ Near(w[k].v, f.v[e[k]], 1) /\ Near(w[k].u, f.u[e[k]], 1)) = TRUE
(* two hemispheres *)
Rising(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
Even(q, r) == \A i \in 1..(Len(q) - 1) : q[i + 1] - q[i] = r
Joinable(i) == LET r == i.lats1[2] - i.lats1[1] IN i.lons1 = i.lons2 /\ Rising(i.lats1) /\ Even(i.lats1, r) /\ Even(i.lats2, r) /\ i.lats2[1] > i.lats1[Len(i.lats1)]
AllRows(i) == LET r == i.lats1[2] - i.lats1[1] a == i.lats1[1] b == i.lats2[Len(i.lats2)] IN [k \in 1..(((b - a) \div r) + 1) |-> a + ((k - 1) * r)]
JoinedEv == /\ Is("joined") /\ Ev.out.ok = ((Joinable(Ev.in)) = TRUE)
            /\ Ev.out.ok => LET i == Ev.in r == i.lats1[2] - i.lats1[1] IN
                 /\ (Ev.out.lookup = Mesh(AllRows(i), i.lons1)) = TRUE /\ Ev.out.n = Len(i.f.v) + Len(i.g.v)
                 /\ (Joined(i.f, i.g, ((i.lats2[1] - i.lats1[1]) \div r) * Len(i.lons1), Ev.out.q)) = TRUE
Next == Land \/ LandDay \/ Lookup \/ ShipsEv \/ ShipsDay \/ LakesEv \/ LakesDay \/ FieldEv \/ MeanEv \/ FieldDay \/ JoinedEv
=============================================================================
