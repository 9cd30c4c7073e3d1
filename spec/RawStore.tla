------------------------------ MODULE RawStore ------------------------------
(* Daily observation files, location tables, correlation ranges and the place *)
(* index, as sequences of eight-byte words: what is stored, and what reading   *)
(* a day, counting it, or following the place index gives back.               *)
EXTENDS Integers, Sequences, FiniteSets
(* An observation: [mask, t4 (time in quarter days), loc, v], v = <<measurement, uncorrelated error, correlated components ...>> *)
ValidOn(o, day) == ~o.mask /\ o.t4 \div 4 = day
RECURSIVE Kept(_, _)
Kept(obs, day) == IF obs = << >> THEN << >> ELSE (IF ValidOn(Head(obs), day) THEN <<[loc |-> Head(obs).loc, v |-> Head(obs).v]>> ELSE << >>) \o Kept(Tail(obs), day)
(* ---- layout of a daily file: two words of format, two of code version, two of location identity, then one record after another *)
HeaderWords == 6
RecWords(nc) == 3 + nc
RECURSIVE Words(_)
Words(recs) == IF recs = << >> THEN << >> ELSE <<Head(recs).loc>> \o Head(recs).v \o Words(Tail(recs))
DayFile(uuid, nc, obs, day) == [uuid |-> uuid, nc |-> nc, words |-> [i \in 1..HeaderWords |-> -1] \o Words(Kept(obs, day))]
CountIn(f) == (Len(f.words) - HeaderWords) \div RecWords(f.nc)
RecordAt(f, i) == [loc |-> f.words[HeaderWords + (i - 1) * RecWords(f.nc) + 1], v |-> SubSeq(f.words, HeaderWords + (i - 1) * RecWords(f.nc) + 2, HeaderWords + i * RecWords(f.nc))]
Contents(f) == [i \in 1..CountIn(f) |-> RecordAt(f, i)]
(* ---- place index: for every location the days and the byte offsets of the values (after the location identifier) *)
OffsetOf(f, i) == 8 * (HeaderWords + (i - 1) * RecWords(f.nc) + 1)
ValuesAt(f, offset) == SubSeq(f.words, offset \div 8 + 1, offset \div 8 + 2 + f.nc)
RECURSIVE IndexDay(_, _, _, _)
IndexDay(f, day, id, i) == IF i > CountIn(f) THEN << >> ELSE (IF RecordAt(f, i).loc = id THEN <<[day |-> day, offset |-> OffsetOf(f, i)]>> ELSE << >>) \o IndexDay(f, day, id, i + 1)
RECURSIVE Index(_, _, _)
(* files: day -> file; days in the order they were given *)
Index(files, days, id) == IF days = << >> THEN << >> ELSE IndexDay(files[Head(days)], Head(days), id, 1) \o Index(files, Tail(days), id)
Follow(files, ptrs) == [i \in DOMAIN ptrs |-> [day |-> ptrs[i].day, v |-> ValuesAt(files[ptrs[i].day], ptrs[i].offset)]]
(* ---- what a place's record is, without files *)
RECURSIVE Series(_, _, _)
SeriesDay(recs, day, id) == LET q == SelectSeq(recs, LAMBDA r : r.loc = id) IN [i \in DOMAIN q |-> [day |-> day, v |-> q[i].v]]
Series(stored, days, id) == IF days = << >> THEN << >> ELSE SeriesDay(stored[Head(days)], Head(days), id) \o Series(stored, Tail(days), id)
=============================================================================
