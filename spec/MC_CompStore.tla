---------------------------- MODULE MC_CompStore ----------------------------
(* The same history of writes and reads goes to every storage variant, each    *)
(* with its own files. They must agree; what was never written is never        *)
(* returned; reading changes no answer.                                        *)
EXTENDS CompStore, TLC, Json
CONSTANTS Times, Vals, Depth, Emit
VARIABLES obj, files, last, log
vars == <<obj, files, last, log>>
None == [k |-> "none", p |-> "", m |-> << >>, l |-> << >>, t |-> << >>]
Path(c, kind, t) == c \o "/" \o kind \o ToString(t)
TimeSeq == SortedSeq(Times)
W(c, kind) ==
  CASE c = "file_sp" -> [None EXCEPT !.k = "one", !.p = Path(c, kind, TimeSeq[1])]
    [] c = "batched" -> IF kind = "measurement" THEN None ELSE [None EXCEPT !.k = "one", !.p = Path(c, kind, 0)]
    [] c = "cached" -> IF kind = "measurement" THEN None ELSE [None EXCEPT !.k = "one", !.p = Path(c, kind, 0)]
    [] c = "file_st" -> IF kind = "measurement" THEN None ELSE [None EXCEPT !.k = "one", !.p = Path(c, kind, 0)]
    [] c = "delayed" -> [None EXCEPT !.k = "map", !.m = [i \in DOMAIN TimeSeq |-> <<TimeSeq[i], Path(c, kind, TimeSeq[i])>>]]
    [] c = "flex" -> [None EXCEPT !.k = "pat", !.t = << <<c, kind>>, <<"%Y", "%m", "%d">> >>]
    [] c = "indexed" -> [None EXCEPT !.k = "list", !.l = [i \in DOMAIN TimeSeq |-> Path(c, kind, TimeSeq[i])]]
    [] OTHER -> None
PerTime == {"mem_sp", "delayed", "flex", "indexed"}
Spanning == {"mem_st", "file_st", "batched", "cached"}
Names == PerTime \cup Spanning \cup {"file_sp"}
Obj(c) == [cls |-> IF c = "cached" THEN "batched" ELSE c, time |-> TimeSeq[1], keep |-> c = "cached", hastimes |-> TRUE, times |-> TimeSeq, rd |-> [k \in Kinds |-> W(c, k)], wr |-> [k \in Kinds |-> W(c, k)], mem |-> [x \in {} |-> 0]]
UsedKinds == {"state", "sample"}
Init == obj = [c \in Names |-> Obj(c)] /\ files = [x \in {} |-> 0] /\ last = [x \in {} |-> 0] /\ log = << >>
RECURSIVE WriteAll(_, _, _, _, _, _)
WriteAll(S, o, f, kind, t, v) == IF S = {} THEN [o |-> o, f |-> f] ELSE
  LET c == CHOOSE c \in S : TRUE r == WriteTo(o[c], f, kind, t, v) IN WriteAll(S \ {c}, [o EXCEPT ![c].mem = r.mem], r.files, kind, t, v)
DoWrite(kind, t, v) == /\ Len(log) < Depth
                       /\ LET r == WriteAll(Names, obj, files, kind, t, v) IN obj' = r.o /\ files' = r.f
                       /\ last' = Put(Put(last, <<kind, t>>, v), <<kind>>, v)
                       /\ log' = Append(log, [a |-> "write", kind |-> kind, t |-> t, v |-> v])
DoRead(kind, t) == /\ Len(log) < Depth /\ log # << >> /\ log[Len(log)].a = "write"
                   /\ obj' = [c \in Names |-> [obj[c] EXCEPT !.mem = ReadFrom(obj[c], files, kind, t).mem]]
                   /\ log' = Append(log, [a |-> "read", kind |-> kind, t |-> t, v |-> 0]) /\ UNCHANGED <<files, last>>
Next == \E kind \in UsedKinds, t \in Times : DoRead(kind, t) \/ \E v \in Vals : DoWrite(kind, t, v)
Answer(c, kind, t) == ReadFrom(obj[c], files, kind, t).r
Val(r) == IF r \in {Nothing, Refused} THEN Nothing ELSE r
LastOf(k) == IF k \in DOMAIN last THEN last[k] ELSE Nothing
LastWritten == \A kind \in UsedKinds, t \in Times :
   /\ \A c \in PerTime : Val(Answer(c, kind, t)) = LastOf(<<kind, t>>)
   /\ \A c \in Spanning : Val(Answer(c, kind, t)) = LastOf(<<kind>>)
   /\ Val(Answer("file_sp", kind, t)) = (IF t = TimeSeq[1] THEN LastOf(<<kind, t>>) ELSE Nothing)
NeverOther == \A c \in Names \ Spanning, kind \in UsedKinds : \A t \in {9} : c # "mem_sp" => Answer(c, kind, t) \in {Nothing, Refused}
ReadsKeep == \A c \in Names, kind \in UsedKinds, t \in Times : LET r == ReadFrom(obj[c], files, kind, t) IN
               \A k2 \in UsedKinds, t2 \in Times : ReadFrom([obj[c] EXCEPT !.mem = r.mem], files, k2, t2).r = Answer(c, k2, t2)
Emitted == (Emit /\ Len(log) = Depth) => PrintT("@@SC " \o ToJson([log |-> log]))
=============================================================================
