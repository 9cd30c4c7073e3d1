------------------------------- MODULE T_C15 -------------------------------
EXTENDS TraceBase, RawStore, Cal
VARIABLES tables,   (* location tables: name -> [uuid, locs] *)
          ranges,   (* source and observable -> correlation ranges *)
          files,    (* source, observable, day -> file *)
          index     (* source and observable -> [uuid, n, days] *)
vars == <<tables, ranges, files, index>>
None == [x \in {} |-> 0]
Init == TraceInit /\ tables = None /\ ranges = None /\ files = None /\ index = None
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* which table the locations of a source refer to *)
Mobile(s) == s = "insitu_ocean"
FixedTable(s) == CASE s \in {"surfaceairmodel_land", "surfaceairmodel_ocean", "surfaceairmodel_ice"} -> "satellite" [] s = "surfaceairmodel_lake" -> "lake" [] OTHER -> s
TableOf(s, o, d) == IF Mobile(s) THEN <<s, o, d>> ELSE <<FixedTable(s)>>
Known(s, o, d) == TableOf(s, o, d) \in DOMAIN tables
Have(s, o, d) == <<s, o, d>> \in DOMAIN files
SameTable(s, o, d) == Known(s, o, d) /\ Have(s, o, d) /\ tables[TableOf(s, o, d)].uuid = files[<<s, o, d>>].uuid
Table == Is("table") /\ tables' = With(tables, Ev.in.name, [uuid |-> Ev.in.uuid, locs |-> Ev.in.locs]) /\ UNCHANGED <<ranges, files, index>>
Ranges == Is("ranges") /\ ranges' = With(ranges, <<Ev.in.s, Ev.in.o>>, Ev.in.ranges) /\ UNCHANGED <<tables, files, index>>
Write == /\ Is("write") /\ files' = With(files, <<Ev.in.s, Ev.in.o, Ev.in.day>>, DayFile(Ev.in.uuid, Ev.in.nc, Ev.in.obs, Ev.in.day)) /\ UNCHANGED <<tables, ranges, index>>
(* a day of a station file: stations with a value, which passed quality control when that is asked for, and are not held out *)
PrepObs(i) == [k \in 1..Len(i.vals) |-> [mask |-> i.vals[k] = -1 \/ (i.qcmask /\ i.qc[k] # 0) \/ (\E h \in DOMAIN i.held : i.held[h] = k - 1), t4 |-> 4 * i.day, loc |-> k - 1, v |-> <<i.vals[k] + i.adjust[k], 3000>>]]
Prepare == /\ Is("prepare") /\ Ev.out.ok = Ev.in.inside
           /\ files' = (IF Ev.in.inside THEN With(files, <<"insitu_land", Ev.in.o, Ev.in.day>>, DayFile(Ev.in.uuid, 0, PrepObs(Ev.in), Ev.in.day)) ELSE files)
           /\ UNCHANGED <<tables, ranges, index>>
MakeIndex == /\ Is("index") /\ UNCHANGED <<tables, ranges, files>>
             /\ LET i == Ev.in ok == \A k \in DOMAIN i.days : Have(i.s, i.o, i.days[k]) /\ SameTable(i.s, i.o, i.days[k]) IN
                /\ Ev.out.ok = ok
                /\ index' = IF ok THEN With(index, <<i.s, i.o>>, [uuid |-> tables[<<FixedTable(i.s)>>].uuid, n |-> Len(tables[<<FixedTable(i.s)>>].locs), days |-> i.days]) ELSE index
(* file names carry the date of the day *)
Names == /\ Is("names") /\ UNCHANGED vars
         /\ LET d == PadDec(YearOf(Ev.in.day), 4) \o PadDec(MonthOf(Ev.in.day), 2) \o PadDec(DomOf(Ev.in.day), 2)
                b == "/" \o Ev.in.s \o "/" \o PadDec(YearOf(Ev.in.day), 4) \o "/" \o Ev.in.s \o "_" \o Ev.in.o \o "_" IN
            /\ Ev.out.obs = b \o d \o ".bin" /\ Ev.out.mobile = b \o "mobilelocations_" \o d \o ".bin"
            /\ Ev.out.ranges = "/" \o Ev.in.s \o "_" \o Ev.in.o \o "_localcorrelationranges.bin"
Placed(recs, locs) == [k \in DOMAIN recs |-> [loc |-> recs[k].loc, v |-> recs[k].v, at |-> locs[recs[k].loc + 1]]]
(* reading a day: with the place of each observation; refused when there is no file or it belongs to other locations *)
Day == /\ Is("day") /\ UNCHANGED vars
       /\ LET i == Ev.in IN
          IF SameTable(i.s, i.o, i.day)
          THEN Ev.out.ok /\ Ev.out.recs = Placed(Contents(files[<<i.s, i.o, i.day>>]), tables[TableOf(i.s, i.o, i.day)].locs) /\ Ev.out.ranges = ranges[<<i.s, i.o>>]
          ELSE ~Ev.out.ok
(* the same through the interface that is told that there is no file *)
Absent == Is("absent") /\ UNCHANGED vars /\ Ev.out.n = 0
Ids == /\ Is("ids") /\ UNCHANGED vars
       /\ LET i == Ev.in IN IF SameTable(i.s, i.o, i.day) THEN Ev.out.ok /\ Ev.out.ids = [k \in 1..CountIn(files[<<i.s, i.o, i.day>>]) |-> RecordAt(files[<<i.s, i.o, i.day>>], k).loc] ELSE ~Ev.out.ok
(* counts of a run of days, -1 for a day without file *)
DayCount(s, o, d) == IF Have(s, o, d) THEN CountIn(files[<<s, o, d>>]) ELSE -1
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE (IF Head(q) > 0 THEN Head(q) ELSE 0) + Sum(Tail(q))
Counts == /\ Is("counts") /\ UNCHANGED vars
          /\ LET i == Ev.in c == [k \in 1..(i.to - i.from + 1) |-> DayCount(i.s, i.o, i.from + k - 1)] missing == Cardinality({k \in DOMAIN c : c[k] = -1}) IN
             /\ Ev.out.counts = c
             /\ IF i.lang = "py" THEN Ev.out.total = Sum(c) /\ Ev.out.days = Len(c) /\ Ev.out.missing = missing /\ (IF missing < Len(c) THEN Ev.out.mean * (Len(c) - missing) = Sum(c) * 5040 ELSE Ev.out.mean = -1)
                ELSE IF missing = 0 THEN Ev.out.total = i.times * Sum(c) ELSE Ev.out.total = -1
Locations == /\ Is("locations") /\ UNCHANGED vars
             /\ Ev.out.n = IF Ev.in.day >= 0 THEN (IF <<Ev.in.s, Ev.in.o, Ev.in.day>> \in DOMAIN tables THEN Len(tables[<<Ev.in.s, Ev.in.o, Ev.in.day>>].locs) ELSE -1)
                           ELSE IF Mobile(Ev.in.s) THEN 0 ELSE IF <<FixedTable(Ev.in.s)>> \in DOMAIN tables THEN Len(tables[<<FixedTable(Ev.in.s)>>].locs) ELSE -1
(* collecting places over all days *)
FilesOf(s, o, days) == [d \in {days[k] : k \in DOMAIN days} |-> files[<<s, o, d>>]]
Place == /\ Is("place") /\ UNCHANGED vars
         /\ LET i == Ev.in IN
            IF Mobile(i.s) THEN Ev.out.ok /\ Ev.out.series = << >>
            ELSE LET x == index[<<i.s, i.o>>] f == FilesOf(i.s, i.o, x.days)
                     ok == <<FixedTable(i.s)>> \in DOMAIN tables /\ tables[<<FixedTable(i.s)>>].uuid = x.uuid IN
                 IF ok THEN Ev.out.ok /\ Ev.out.series = [k \in DOMAIN i.ids |-> Follow(f, Index(f, x.days, i.ids[k]))] ELSE ~Ev.out.ok
(* the index itself: refused for other locations or a place that does not exist *)
Pointers == /\ Is("pointers") /\ UNCHANGED vars
            /\ LET i == Ev.in x == index[<<i.s, i.o>>] IN
               IF i.uuid = x.uuid /\ i.id \in 0..(x.n - 1) THEN Ev.out.ok /\ Ev.out.ptrs = Index(FilesOf(i.s, i.o, x.days), x.days, i.id) ELSE ~Ev.out.ok
Next == Table \/ Ranges \/ Write \/ Prepare \/ MakeIndex \/ Names \/ Day \/ Absent \/ Ids \/ Counts \/ Locations \/ Place \/ Pointers
=============================================================================
