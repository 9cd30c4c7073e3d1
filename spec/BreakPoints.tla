---------------------------- MODULE BreakPoints ----------------------------
(* Break points of station records: a sequence of records (time, station,    *)
(* likelihood).  Filtering by likelihood, per-station views, and the bias     *)
(* term that every observation of a day receives.                            *)
EXTENDS Integers, Sequences, FiniteSets
MAXL == 127
AbsL(x) == IF x < 0 THEN -x ELSE x
(* policy: [code, thr10, dist2]                                              *)
(*   hard    keep a record iff its likelihood >= thr10 / 10                   *)
(*   kernel  keep iff exp(-decay * |likelihood - 127|) >= threshold; the      *)
(*           threshold is given as the kernel at distance dist2 / 2           *)
(*           (dist2 odd), -1 for a threshold above one                        *)
Qualifies(p, k) == IF p.code = "hard" THEN 10 * k >= p.thr10 ELSE 2 * AbsL(k - MAXL) <= p.dist2
Known(p) == p.code \in {"hard", "kernel"}
Filter(p, recs) == SelectSeq(recs, LAMBDA r : Qualifies(p, r.k))
Stations(recs) == {recs[i].s : i \in DOMAIN recs}
CountOf(recs, s) == Cardinality({i \in DOMAIN recs : recs[i].s = s})
RECURSIVE TimesOf(_, _)
TimesOf(recs, s) == IF recs = << >> THEN << >> ELSE (IF Head(recs).s = s THEN <<Head(recs).t>> ELSE << >>) \o TimesOf(Tail(recs), s)
(* a record without likelihood is not a record (k = -128) *)
Present(recs) == SelectSeq(recs, LAMBDA r : r.k # -128)
(* records are laid out station by station, in order of time within a station *)
LaidOut(recs) == \A i, j \in DOMAIN recs : i < j => recs[i].s < recs[j].s \/ (recs[i].s = recs[j].s /\ recs[i].t < recs[j].t)
(* Bias of an observation made at station s (counted from zero; in records from one) on day t: *)
(* the first later break of that station, -1 if there is none.                 *)
Later(recs, s, t) == {j \in DOMAIN recs : recs[j].s = s + 1 /\ recs[j].t > t}
BiasOf(recs, s, t) == LET L == Later(recs, s, t) IN IF L = {} THEN -1 ELSE (CHOOSE j \in L : \A k \in L : recs[j].t <= recs[k].t) - 1
(* pairs (observation, bias), counted from zero, of the observations at obs (a sequence of stations) *)
Pairs(recs, obs, t) == {<<i - 1, BiasOf(recs, obs[i], t)>> : i \in {i \in DOMAIN obs : BiasOf(recs, obs[i], t) >= 0}}
(* satellite biases: one global term, or one per hemisphere *)
GlobalPairs(n) == {<<i - 1, 0>> : i \in 1..n}
HemiPairs(lats) == {<<i - 1, IF lats[i] < 0 THEN 1 ELSE 0>> : i \in DOMAIN lats}
(* whose biases a source has: all of its files carry the source's name *)
SourceOf(g) == CASE g = "insitu_land" -> "insitu_land" [] g = "insitu_ocean" -> "insitu_ocean" [] g = "surfaceairmodel_land_global" -> "surfaceairmodel_land"
                 [] g = "surfaceairmodel_ocean_global" -> "surfaceairmodel_ocean" [] g = "surfaceairmodel_ice_global" -> "surfaceairmodel_ice" [] OTHER -> ""
Applies(g, sources) == \A i \in DOMAIN sources : sources[i] = SourceOf(g)
Effect(g, sources, recs, stations, lats, t) ==
   IF ~Applies(g, sources) THEN {} ELSE
   CASE g = "insitu_land" -> Pairs(recs, stations, t)
     [] g \in {"surfaceairmodel_land_global", "surfaceairmodel_ocean_global"} -> GlobalPairs(Len(stations))
     [] g = "surfaceairmodel_ice_global" -> HemiPairs(lats)
     [] OTHER -> {}
=============================================================================
