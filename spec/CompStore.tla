----------------------------- MODULE CompStore -----------------------------
(* Storage of component solutions: what a write stores and a read returns for *)
(* each storage class, over one shared file system.                           *)
(*   files   function from path to value                                      *)
(*   object  [cls, time, keep, times, rd, wr, mem]: rd and wr say for each     *)
(*           kind where it is read from and written to; mem holds what is kept *)
(*           in memory                                                         *)
EXTENDS Integers, Sequences, FiniteSets, Cal
Nothing == -1     (* the answer "there is none" *)
Refused == -2     (* an error *)
StateKinds == {"state", "std", "sample", "prior"}
Kinds == StateKinds \cup {"measurement"}
Lookup(m, t) == LET H == {i \in DOMAIN m : m[i][1] = t} IN IF H = {} THEN "" ELSE LET i == CHOOSE i \in H : \A j \in H : j <= i IN m[i][2]
RECURSIVE JoinPath(_, _)
JoinPath(toks, d) == IF Len(toks) = 1 THEN Render(toks[1], T(d, 0, 0)) ELSE Render(toks[1], T(d, 0, 0)) \o "/" \o JoinPath(Tail(toks), d)
(* times an indexed storage knows, in order; a place w is a list of files there *)
NumKnown(o) == IF o.hastimes THEN Len(o.times) ELSE
               LET W == <<o.rd["state"], o.wr["state"], o.rd["measurement"], o.wr["measurement"]>>
                   H == {i \in DOMAIN W : W[i].k # "none"} IN
               IF H = {} THEN 0 ELSE Len(W[CHOOSE i \in H : \A j \in H : i <= j].l)
Position(o, t) == IF o.hastimes
                  THEN LET H == {i \in DOMAIN o.times : o.times[i] = t} IN IF H = {} THEN 0 ELSE CHOOSE i \in H : \A j \in H : j <= i
                  ELSE IF t \in 0..(NumKnown(o) - 1) THEN t + 1 ELSE 0
(* the file for a kind and time: [ok, p]; ok = FALSE means the time is not one this storage was set up for *)
NoFile == [ok |-> FALSE, p |-> ""]
At(p) == [ok |-> TRUE, p |-> p]
Place(o, w, kind, t, writing) ==
  CASE o.cls = "file_st" -> IF kind # "measurement" THEN At(w.p)
                            ELSE IF writing THEN (IF t = o.time THEN At(w.p) ELSE NoFile)
                            ELSE IF t \in 0..(Len(w.l) - 1) THEN At(w.l[t + 1]) ELSE NoFile
    [] o.cls = "file_sp" -> IF t = o.time THEN At(w.p) ELSE NoFile
    [] o.cls = "delayed" -> IF w.k = "list" THEN (IF t \in 0..(Len(w.l) - 1) THEN At(w.l[t + 1]) ELSE NoFile)
                            ELSE IF \E i \in DOMAIN w.m : w.m[i][1] = t THEN At(Lookup(w.m, t)) ELSE NoFile
    [] o.cls = "flex" -> At(JoinPath(w.t, t))
    [] o.cls = "indexed" -> LET i == Position(o, t) IN IF i \in DOMAIN w.l THEN At(w.l[i]) ELSE NoFile
    [] o.cls = "batched" -> IF kind = "measurement" /\ ~writing THEN (IF Len(w.l) = 1 THEN At(w.l[1]) ELSE NoFile) ELSE At(w.p)
InMemory(o) == o.cls \in {"mem_st", "mem_sp"}
Slot(o, kind, t) == IF (o.cls = "mem_st" \/ o.cls = "batched") /\ kind \in StateKinds THEN <<kind>> ELSE <<kind, t>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Held(o, kind, t) == Slot(o, kind, t) \in DOMAIN o.mem
Keeps(o, kind) == o.cls = "batched" /\ o.keep /\ kind \in StateKinds
(* result of a write: [ok, files, mem] *)
WriteTo(o, files, kind, t, v) ==
  IF InMemory(o) THEN [ok |-> TRUE, files |-> files, mem |-> Put(o.mem, Slot(o, kind, t), v)]
  ELSE LET w == o.wr[kind] pl == IF w.k = "none" THEN NoFile ELSE Place(o, w, kind, t, TRUE) IN
       IF ~pl.ok THEN [ok |-> FALSE, files |-> files, mem |-> o.mem]
       ELSE [ok |-> TRUE, files |-> Put(files, pl.p, v), mem |-> IF Keeps(o, kind) THEN Put(o.mem, Slot(o, kind, t), v) ELSE o.mem]
(* result of a read: [r, mem]; what is kept in memory changes only where keeping was asked for *)
ReadFrom(o, files, kind, t) ==
  LET same(x) == [r |-> x, mem |-> o.mem] IN
  IF InMemory(o) THEN same(IF Held(o, kind, t) THEN o.mem[Slot(o, kind, t)] ELSE IF kind = "measurement" THEN Refused ELSE Nothing)
  ELSE LET w == o.rd[kind] IN
       IF w.k = "none" THEN same(IF kind = "measurement" \/ o.cls = "flex" THEN Refused ELSE Nothing)
       ELSE IF Keeps(o, kind) /\ Held(o, kind, t) THEN same(o.mem[Slot(o, kind, t)])
       ELSE LET pl == Place(o, w, kind, t, FALSE) IN
            IF ~pl.ok THEN same(IF o.cls = "delayed" /\ kind # "measurement" THEN Nothing ELSE Refused)
            ELSE IF pl.p \notin DOMAIN files THEN same(IF o.cls = "flex" THEN Nothing ELSE Refused)
            ELSE [r |-> files[pl.p], mem |-> IF Keeps(o, kind) THEN Put(o.mem, Slot(o, kind, t), files[pl.p]) ELSE o.mem]
(* the times there are measurements for: [k, l] with k = "list", "none" or "refused" (order as documented, sets where there is none) *)
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SortedSeq(S \ {x})
Range(q) == {q[i] : i \in DOMAIN q}
TimesOf(o) ==
  CASE InMemory(o) -> [k |-> "list", l |-> SortedSeq({s[2] : s \in {s \in DOMAIN o.mem : s[1] = "measurement"}})]
    [] o.cls = "file_st" -> LET w == o.rd["measurement"] IN IF w.k = "none" \/ w.l = << >> THEN [k |-> "none", l |-> << >>] ELSE [k |-> "list", l |-> [i \in DOMAIN w.l |-> i - 1]]
    [] o.cls = "delayed" -> LET w == o.rd["measurement"] S == IF w.k = "list" THEN {i - 1 : i \in DOMAIN w.l} ELSE IF w.k = "map" THEN {w.m[i][1] : i \in DOMAIN w.m} ELSE {} IN
                            IF S = {} THEN [k |-> "none", l |-> << >>] ELSE [k |-> "list", l |-> SortedSeq(S)]
    [] o.cls = "indexed" -> IF o.hastimes THEN [k |-> "list", l |-> o.times] ELSE [k |-> "none", l |-> << >>]
    [] OTHER -> [k |-> "refused", l |-> << >>]
=============================================================================
