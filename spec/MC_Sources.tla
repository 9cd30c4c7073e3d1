----------------------------- MODULE MC_Sources -----------------------------
(* All small files of stations and histories of reads: what one day shows is  *)
(* the part of the whole of that day, options only hide more, and the height  *)
(* correction is none at the reference height.                                *)
EXTENDS Sources, TLC, Json
CONSTANTS N, D, V, Q, E, L, Emit
VARIABLES file, opt, hist, full
vars == <<file, opt, hist, full>>
Map == <<<<0, 128>>, <<256, 512>>>>
Days == [i \in 1..D |-> 100 + (2 * i)]
Opts == [day : {-1} \cup {Days[i] : i \in 1..D} \cup {101}, qc : BOOLEAN, adj : BOOLEAN]
Files == [days : {Days}, val : [1..D -> [1..N -> V]], qc : [1..D -> [1..N -> Q]], elev : [1..N -> E], pos : {[s \in 1..N |-> <<3 + s, 5 + (2 * s)>>]}, hold : {<< >>, <<"b">>}, codes : {SubSeq(<<"a", "b", "c">>, 1, N)}, map : {Map}]
Init == file \in Files /\ opt = [day |-> -1, qc |-> FALSE, adj |-> FALSE] /\ hist = << >> /\ full = {}
Shown(f, o) == {<<d, s>> \in {DaysOf(f, o)[i] : i \in DOMAIN DaysOf(f, o)} \X (1..N) : ~Hidden(f, o, d, s)}
Next == Len(hist) < L /\ \E o \in Opts : opt' = o /\ hist' = Append(hist, o) /\ file' = file /\ full' = Shown(file, o)
Whole == [opt EXCEPT !.day = -1]
DayIsPart == hist # << >> => full = {p \in Shown(file, Whole) : opt.day < 0 \/ Days[p[1]] = opt.day}
Union == Shown(file, Whole) = UNION {Shown(file, [opt EXCEPT !.day = Days[i]]) : i \in 1..D}
OnlyHides == /\ Shown(file, [opt EXCEPT !.qc = TRUE]) \subseteq Shown(file, [opt EXCEPT !.qc = FALSE])
             /\ Shown(file, [opt EXCEPT !.adj = TRUE]) \subseteq Shown(file, [opt EXCEPT !.adj = FALSE])
             /\ \A p \in Shown(file, opt) : file.val[p[1]][p[2]] # MISS
Absent == opt.day = 101 => full = {}
(* heights: exact at nodes, between the heights around a point elsewhere *)
Heights == LET n == Len(Map) IN
    /\ \A i, j \in 1..n : Height(Map, 4 * i, 4 * j) = Unit(Map) * Map[i][j]
    /\ \A a, b \in 0..(4 * n + 3) : LET S == {Ext(Map, p, q) : p \in {a \div 4, (a \div 4) + 1}, q \in {b \div 4, (b \div 4) + 1}} IN \E lo, hi \in S : lo * 16 <= Height(Map, a, b) /\ Height(Map, a, b) <= hi * 16
    /\ \A a \in 0..(4 * n + 4) : Height(Map, a, 0) = Height(Map, a, 4 * n) /\ Height(Map, a, 4) = Height(Map, a, 4 * (n + 1))
VSmall == {MISS, 4}
ESmall == {MISS, 100}
VBig == {MISS, 4, -7}
EBig == {MISS, 0, 100}
Emitted == (Emit /\ Len(hist) = L) => PrintT("@@SC " \o ToJson([val |-> file.val, qc |-> file.qc, elev |-> file.elev, hold |-> file.hold, opt |-> opt]))
=============================================================================
