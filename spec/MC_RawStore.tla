---------------------------- MODULE MC_RawStore ----------------------------
(* Days are written one by one, the place index is built from some of them in *)
(* any order, and then days and places are read back through the bytes.       *)
EXTENDS RawStore, TLC, Json
CONSTANTS Days, Locs, MaxObs, NC, Emit
VARIABLES given, stored, files, index
vars == <<given, stored, files, index>>
Obs(d) == [mask : BOOLEAN, t4 : {4 * d, 4 * d + 3, 4 * d + 4}, loc : Locs, v : {[i \in 1..(2 + NC) |-> 10 * i + d]}]
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<< >>} ELSE LET P == SeqsUpTo(S, n - 1) IN P \cup {p \o <<s>> : p \in {q \in P : Len(q) = n - 1}, s \in S}
(* values tell the observations of a day apart *)
Tag(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.v = [j \in DOMAIN q[i].v |-> q[i].v[j] + 100 * i]]]
Init == given = [d \in Days |-> << >>] /\ stored = [d \in {} |-> << >>] /\ files = [d \in {} |-> << >>] /\ index = << >>
Write(d) == /\ d \notin DOMAIN files /\ index = << >> /\ \A e \in Days : e < d => e \in DOMAIN files
            /\ \E q \in SeqsUpTo(Obs(d), MaxObs) :
               /\ given' = [given EXCEPT ![d] = Tag(q)]
               /\ stored' = [e \in DOMAIN stored \cup {d} |-> IF e = d THEN Kept(Tag(q), d) ELSE stored[e]]
               /\ files' = [e \in DOMAIN files \cup {d} |-> IF e = d THEN DayFile(1, NC, Tag(q), d) ELSE files[e]]
            /\ UNCHANGED index
Perms(S) == {p \in UNION {[1..n -> S] : n \in 1..Cardinality(S)} : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
BuildIndex == /\ index = << >> /\ DOMAIN files # {} /\ \E p \in Perms(DOMAIN files) : index' = <<p, [l \in Locs |-> Index(files, p, l)]>>
              /\ UNCHANGED <<given, stored, files>>
Next == (\E d \in Days : Write(d)) \/ BuildIndex
(* reading a day gives exactly its valid observations, in order *)
DayExact == \A d \in DOMAIN files : Contents(files[d]) = stored[d] /\ CountIn(files[d]) = Cardinality({i \in DOMAIN given[d] : ValidOn(given[d][i], d)})
(* following the index gives exactly the observations of the place *)
PlaceExact == index # << >> => \A l \in Locs : Follow(files, index[2][l]) = Series(stored, index[1], l)
NothingLost == index # << >> => LET Total == [d \in DOMAIN files |-> CountIn(files[d])] IN
                  \A d \in DOMAIN files : (\E i \in DOMAIN index[1] : index[1][i] = d) => Cardinality({<<l, i>> \in Locs \X (1..MaxObs) : i \in DOMAIN SelectSeq(index[2][l], LAMBDA r : r.day = d)}) = Total[d]
Emitted == (Emit /\ index # << >>) => PrintT("@@SC " \o ToJson([given |-> [d \in Days |-> given[d]], days |-> index[1]]))
=============================================================================
