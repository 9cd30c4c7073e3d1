------------------------------- MODULE T_C13 -------------------------------
(* Trace specification: quality-control passes on day files (C13).           *)
EXTENDS Flags, TraceBase
VARIABLES st
Init == TraceInit /\ st = 0
In == Ev.in
Out == Ev.out
Range0(s) == {s[i] : i \in 1..Len(s)}
Refused == Out.k = "refused"
Gives(v) == Out.k = "flags" /\ Out.v = v
Same == UNCHANGED st

WindowEv == Is("window") /\ Same
  /\ (IF Exists(In.files, In.ref) THEN Gives(WindowFlags(In.files, In.ref, In.range, In.thr, Range0(In.target))) ELSE Refused) = TRUE
CalendarEv == Is("calendar") /\ Same
  /\ (IF CalendarPossible(In.files, In.ref, In.y0, In.y1) THEN Gives(CalendarFlags(In.files, In.ref, In.y0, In.y1, Range0(In.target))) ELSE Refused) = TRUE
PersistEv == Is("persist") /\ Same
  /\ (IF Exists(In.files, In.ref) THEN Gives(PersistFlags(In.files, In.ref, In.range, In.thr)) ELSE Refused) = TRUE
MergeEv == Is("merge") /\ Same
  /\ (IF Exists(In.files, In.ref) /\ Exists(In.files2, In.ref)
      THEN Gives([c \in Cells(In.files, In.ref) |-> MergeCell(Val(In.files, In.ref, c), Val(In.files2, In.ref, c))])
      ELSE Refused) = TRUE
MaskEv == Is("mask") /\ Same /\ (Out.v = [c \in 1..Len(In.v) |-> Masked(In.v[c], In.combos)]) = TRUE

(* monthly batches: one result file per day of the month, each what the single pass gives *)
Days == BatchDays(In.ref, In.index)
BatchWindow == Is("batch_window") /\ Same
  /\ (Out.files = [i \in 1..Len(Days) |-> [d |-> Days[i], v |-> WindowFlags(In.files, Days[i], In.range, In.thr, Range0(In.target))]]) = TRUE
BatchCalendar == Is("batch_calendar") /\ Same
  /\ (Out.files = [i \in 1..Len(Days) |-> [d |-> Days[i], v |-> CalendarFlags(In.files, Days[i], In.y0, In.y1, CalendarTarget)]]) = TRUE
BatchPersist == Is("batch_persist") /\ Same
  /\ (Out.files = [i \in 1..Len(Days) |-> [d |-> Days[i], v |-> PersistFlags(In.files, Days[i], In.range, In.thr)]]) = TRUE
BatchMerge == Is("batch_merge") /\ Same
  /\ (Out.files = [i \in 1..Len(Days) |-> [d |-> Days[i], v |-> [c \in Cells(In.files, Days[i]) |-> MergeCell(Val(In.files, Days[i], c), Val(In.files2, Days[i], c))]]]) = TRUE
BatchThreshold == Is("batch_threshold") /\ Same
  /\ LET one(i) == LET a == MeanAbove(In.clim[i], In.n, In.m, 13, In.climthr, CLIMUNC)
                       b == MeanAbove(In.large[i], In.n, In.m, 17, In.largethr, LARGEUNC)
                       c == MeanBelow(In.infl[i], In.n, In.m, 5, In.inflthr, DAY)
                       s == MarineStrict(In.coast, In.n, In.m)
                   IN [k \in 1..(In.n * In.m) |-> a[k] + b[k] + c[k] + s[k]]
     IN (\A i \in 1..Len(Out.files) : Out.files[i].d = Days[Out.files[i].i] /\ Out.files[i].v = one(Out.files[i].i)) = TRUE
  /\ Out.n = Len(Days)
BatchOutlier == Is("batch_outlier") /\ Same
  /\ LET one(i) == LET x == [k \in 1..(In.n * In.m) |-> In.tas[i][k] + In.adjust[k]]
                       a == ArealFlags(x, In.n, In.m, In.wi, In.wj)
                       e == ExtremeFlags(In.tas[i], In.n, In.m, In.lo, In.hi)
                   IN [k \in 1..(In.n * In.m) |-> a[k] + e[k]]
     IN (\A i \in 1..Len(Out.files) : Out.files[i].d = Days[Out.files[i].i] /\ Out.files[i].v = one(Out.files[i].i)) = TRUE
  /\ Out.n = Len(Days)

(* passes that look at the analysis itself *)
Climatology == Is("climatology") /\ Same /\ Gives(MeanAbove(In.x, In.n, In.m, 13, In.thr, CLIMUNC))
LargeScale  == Is("large_scale") /\ Same /\ Gives(MeanAbove(In.x, In.n, In.m, 17, In.thr, LARGEUNC))
Influence   == Is("influence") /\ Same /\ Gives(MeanBelow(In.x, In.n, In.m, 5, In.thr, DAY))
Extremes    == Is("extremes") /\ Same /\ Gives(ExtremeFlags(In.x, In.n, In.m, In.lo, In.hi))
Areal       == Is("areal") /\ Same /\ Gives(ArealFlags([k \in 1..(In.n * In.m) |-> In.x[k] + In.adjust[k]], In.n, In.m, In.wi, In.wj))
Location    == Is("location") /\ Same /\ Gives(LocationFlags(In.x, In.q1, In.q2, In.q3))
MarineEv    == Is("marine") /\ Same /\ Gives(MarineStrict(In.coast, In.n, In.m))
ResetMarineEv == Is("reset_marine") /\ Same /\ Gives(ResetMarine(In.v, In.coast, In.n, In.m))
(* percentiles per cell of the same calendar day over the years (four times the value) *)
Percentiles == Is("percentiles") /\ Same
  /\ LET ncell == Len(In.years[1])
         s == TLCEval([c \in 1..ncell |-> Sorted([y \in 1..Len(In.years) |-> In.years[y][c]])])
     IN (\A c \in 1..ncell : Out.q1[c] = Quart4(s[c], 1) /\ Out.q2[c] = Quart4(s[c], 2) /\ Out.q3[c] = Quart4(s[c], 3)) = TRUE

(* masked products: every field keeps its unmasked values and loses exactly the masked cells *)
NoValue == -999999
ApplyEv == Is("apply") /\ Same
  /\ LET both == IF In.two THEN [k \in 1..Len(In.flags) |-> WordOr(In.flags[k], In.flags2[k])] ELSE In.flags
         f == ResetMarine(both, In.coast, In.n, In.m)
         combos == IF In.combos = << >> THEN CombosForYear(In.year) ELSE In.combos
         mask == TLCEval([k \in 1..Len(f) |-> Masked(f[k], combos)])
         good(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : IF mask[k] THEN y[k] = NoValue ELSE y[k] # NoValue /\ y[k] - x[k] \in -3..3
     IN /\ (Len(Out.fields) = Len(In.fields)) = TRUE
        /\ (\A i \in 1..Len(In.fields) : good(In.fields[i], Out.fields[i])) = TRUE
(* bookkeeping of batches *)
DatesEv == Is("dates") /\ Same /\ Out.days = Days
CountEv == Is("count") /\ Same /\ Out.n = 12 * (In.y1 - In.y0 + 1)

Next == WindowEv \/ CalendarEv \/ PersistEv \/ MergeEv \/ MaskEv \/ BatchWindow \/ BatchCalendar \/ BatchPersist \/ BatchMerge \/ BatchThreshold \/ BatchOutlier
        \/ Climatology \/ LargeScale \/ Influence \/ Extremes \/ Areal \/ Location \/ MarineEv \/ ResetMarineEv \/ Percentiles \/ ApplyEv \/ DatesEv \/ CountEv
=============================================================================
