------------------------------ MODULE MC_Store ------------------------------
(* Every description of bounded size that can be stored is read back the same, *)
(* however often it is stored; two descriptions that are not the same never      *)
(* give the same file.                                                           *)
EXTENDS Store, Json
CONSTANTS Deep, Emit
VARIABLES val, file, times
vars == <<val, file, times>>
Words == {S(""), S("a"), S("b ")}
Nums == {I("0"), I("7")}
Base == Words \cup Nums \cup {F("1.5"), Tm("20010203040506"), Nil}
Seqs(A, n) == UNION {[1..k -> A] : k \in 0..n}
Flat == {L(q) : q \in {r \in Seqs(Base, 2) : Homogeneous(r)}}
Rows == {L(<<>>), L(<<S("a")>>), L(<<S(""), S("a")>>), L(<<I("0")>>), L(<<I("7"), I("0")>>), Nil}
Tables == {L(q) : q \in {r \in Seqs(Rows, IF Deep THEN 3 ELSE 2) : r # <<>> /\ Table(r)}}
Values1 == Base \cup Flat \cup Tables
SmallVals == {Nil, S("a"), S(""), I("7"), Tm("20010203040506"), L(<<S("a"), Nil>>), L(<<I("7"), Nil>>), L(<<L(<<I("7")>>), L(<<>>)>>)}
Objs == {O(c, <<>>) : c \in {"", "K"}} \cup {O(c, <<Mem("p", v)>>) : c \in {"", "K"}, v \in SmallVals}
        \cup {O("K", <<Mem("p", v), Mem("q", w)>>) : v \in {S("a"), Nil, I("7")}, w \in SmallVals}
ObjLists == {L(q) : q \in {<<a>> : a \in Objs} \cup {<<a, b>> : a \in Objs, b \in Objs}}
Universe == {O("", <<Mem("x", v)>>) : v \in {u \in Values1 \cup Objs \cup (IF Deep THEN ObjLists ELSE {L(q) : q \in {<<a, b>> : a \in {o \in Objs : Len(o.m) < 2}, b \in Objs}}) : Storable(u)}}
Init == val \in Universe /\ file = [f |-> "absent", x |-> Nil] /\ times = 0
Save == times = 0 /\ file' = Encode(val) /\ times' = 1 /\ UNCHANGED val
Again == times = 1 /\ file' = Encode(Decode(file)) /\ times' = 2 /\ UNCHANGED val
Done == times = 2 /\ times' = 3 /\ UNCHANGED <<val, file>> /\ IF Emit THEN PrintT("@@SC " \o ToJson(val)) ELSE TRUE
Next == Save \/ Again \/ Done
ReadBack == times > 0 => Same(Decode(file), val)
=============================================================================
