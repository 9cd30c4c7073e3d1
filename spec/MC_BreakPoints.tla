--------------------------- MODULE MC_BreakPoints ---------------------------
(* All small station-by-station record tables and histories of filters; the   *)
(* bias assigned on every day.                                               *)
EXTENDS BreakPoints, TLC, Json
CONSTANTS S, T, K, L, F, Emit
VARIABLES recs, orig, hist
vars == <<recs, orig, hist>>
Rec == [t : 1..T, s : 1..S, k : K]
RECURSIVE Tables(_)
Tables(n) == IF n = 0 THEN {<< >>} ELSE LET P == Tables(n - 1) IN P \cup {p \o <<r>> : p \in {q \in P : Len(q) = n - 1}, r \in Rec}
Init == recs \in {x \in Tables(L) : LaidOut(x)} /\ orig = recs /\ hist = << >>
Policies == {[code |-> "hard", thr10 |-> h, dist2 |-> 0] : h \in {10 * k : k \in K} \cup {10 * k + 5 : k \in K}} \cup {[code |-> "kernel", thr10 |-> 0, dist2 |-> d] : d \in {2 * (MAXL - k) + 1 : k \in K} \cup {-1}}
Next == Len(hist) < F /\ \E p \in Policies : recs' = Filter(p, recs) /\ hist' = Append(hist, p) /\ orig' = orig
(* what is left is what every filter keeps, in order *)
Exact == recs = SelectSeq(orig, LAMBDA r : \A i \in DOMAIN hist : Qualifies(hist[i], r.k))
Again == \A i \in DOMAIN hist : Filter(hist[i], recs) = recs
Counted == LET RECURSIVE Sum(_) Sum(x) == IF x = {} THEN 0 ELSE LET a == CHOOSE a \in x : TRUE IN CountOf(recs, a) + Sum(x \ {a}) IN Sum(Stations(recs)) = Len(recs)
Stays == LaidOut(recs)
(* every observation has at most one bias; the bias is one of its own station, and between two breaks it does not change *)
Assigned == \A s \in 0..(S - 1), t \in 0..T : LET b == BiasOf(recs, s, t) IN
    /\ b >= 0 => recs[b + 1].s = s + 1 /\ recs[b + 1].t > t /\ (\A j \in DOMAIN recs : recs[j].s = s + 1 /\ recs[j].t > t => recs[j].t >= recs[b + 1].t)
    /\ b < 0 => \A j \in DOMAIN recs : recs[j].s = s + 1 => recs[j].t <= t
    /\ t > 0 /\ BiasOf(recs, s, t - 1) # b => \E j \in DOMAIN recs : recs[j].s = s + 1 /\ recs[j].t = t
Emitted == (Emit /\ Len(hist) = F) => PrintT("@@SC " \o ToJson([recs |-> orig, hist |-> hist]))
=============================================================================
