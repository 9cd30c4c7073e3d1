------------------------------ MODULE SatGrid ------------------------------
(* Gridding of satellite observations.  A pixel is                           *)
(*   [v, qc, lat, lon, ran, atm, sfc, miss]                                  *)
(* with value, quality bits, position, three uncertainties and the names of  *)
(* what is missing of it; a file is [lst, aux, pixels, sys] with the fate of *)
(* its two components.  Axes are [start, inc, n, wrap].  All are integers.   *)
EXTENDS Integers, Sequences, FiniteSets
Set(s) == {s[i] : i \in DOMAIN s}
RECURSIVE And(_, _)
And(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE ((a % 2) * (b % 2)) + (2 * And(a \div 2, b \div 2))
Passes(qc, mask, want) == And(qc, mask) = want
(* what loading a file must report *)
Status(f) == IF "missing" \in {f.lst, f.aux} THEN "missing" ELSE IF f.lst = "ok" /\ f.aux = "ok" THEN "ok" ELSE "error"
Good(files) == {i \in DOMAIN files : Status(files[i]) = "ok"}
(* observations, as pairs of file and pixel, that count as valid; and those counted in total *)
Obs(files) == UNION {{<<i, j>> : j \in DOMAIN files[i].pixels} : i \in Good(files)}
Px(files, o) == files[o[1]].pixels[o[2]]
Valid(files, q) == {o \in Obs(files) : LET p == Px(files, o) IN p.miss = <<>> /\ Passes(p.qc, q.mvalid, q.fvalid)}
Total(files, q) == {o \in Obs(files) : LET p == Px(files, o) IN Set(p.miss) \cap {"QC", "lat", "lon"} = {} /\ Passes(p.qc, q.mobs, q.fobs)}
(* place of a position along an axis (integer division rounds down) *)
Place(a, x) == (x - a.start) \div a.inc
Inside(a, x) == Place(a, x) \in 0 .. a.n - 1
Edge(a, x) == a.wrap /\ Place(a, x) = a.n
(* position that may be refused, and position that has to be *)
May(a, x) == ~Inside(a, x) /\ ~Edge(a, x)
Must(a, x) == ~Inside(a, x) /\ ~a.wrap
Along(a, x) == Place(a, x) % a.n
Cell(g, p) == (Along(g.lat, p.lat) * g.lon.n) + Along(g.lon, p.lon)
Where(files, obs, g, c) == {o \in obs : Cell(g, Px(files, o)) = c}
Cells(files, obs, g) == {Cell(g, Px(files, o)) : o \in obs}
=============================================================================
