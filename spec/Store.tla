------------------------------- MODULE Store -------------------------------
(* Descriptions of objects and what storing keeps of them.                    *)
(* A value is [k: kind, v: content]: "n" missing, "i" whole number, "f" number, *)
(* "s" text, "t" time (contents as text), "l" list (sequence of values),        *)
(* "o" object or dictionary: [k |-> "o", c |-> class, m |-> sequence of [key, val]]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nil == [k |-> "n", v |-> ""]
S(x) == [k |-> "s", v |-> x]
I(x) == [k |-> "i", v |-> x]
F(x) == [k |-> "f", v |-> x]
Tm(x) == [k |-> "t", v |-> x]
L(q) == [k |-> "l", v |-> q]
O(c, m) == [k |-> "o", c |-> c, m |-> m]
Mem(key, val) == [key |-> key, val |-> val]
Scalars == {"i", "f", "s", "t"}
KindsIn(q) == {q[j].k : j \in 1..Len(q)} \ {"n"}
RECURSIVE TrimBlank(_)
TrimBlank(q) == IF q # <<>> /\ q[Len(q)] = Nil THEN TrimBlank(SubSeq(q, 1, Len(q) - 1)) ELSE q

(* ---- what storing keeps: missing, "" and lists of nothing are the same thing; rows of a table of text are padded, ---- *)
(* ---- rows of a table of numbers keep only the numbers that are there ---- *)
RECURSIVE Canon(_, _)
CanonMembers(m, inner) == LET c == [j \in 1..Len(m) |-> Mem(m[j].key, Canon(m[j].val, inner))]
                          IN {x \in {c[j] : j \in 1..Len(c)} : x.val # Nil}
Canon(x, inner) ==
  CASE x.k = "n" -> Nil
    [] x.k = "s" -> IF x.v = "" THEN Nil ELSE x
    [] x.k = "l" -> LET q == [j \in 1..Len(x.v) |-> Canon(x.v[j], TRUE)]
                        text == KindsIn(x.v) \subseteq {"s"}
                    IN IF \A j \in 1..Len(q) : q[j] = Nil THEN Nil
                       ELSE L(IF ~inner THEN q ELSE IF text THEN TrimBlank(q) ELSE SelectSeq(q, LAMBDA y : y # Nil \/ KindsIn(x.v) \cap {"i", "f"} = {}))
    [] x.k = "o" -> [k |-> "o", c |-> x.c, m |-> CanonMembers(x.m, inner)]
    [] OTHER -> x
Same(a, b) == Canon(a, FALSE) = Canon(b, FALSE)

(* text descriptors: members that are empty, zero or missing are left out; everything else is kept as it is *)
Falsy(x) == x.k = "n" \/ (x.k = "i" /\ x.v = "0") \/ (x.k = "f" /\ x.v \in {"0.0", "-0.0"}) \/ (x.k = "s" /\ x.v = "") \/ (x.k = "l" /\ x.v = <<>>) \/ (x.k = "o" /\ x.c = "" /\ x.m = {})
RECURSIVE CanonText(_)
CanonText(x) ==
  CASE x.k = "l" -> L([j \in 1..Len(x.v) |-> CanonText(x.v[j])])
    [] x.k = "o" -> LET c == [j \in 1..Len(x.m) |-> Mem(x.m[j].key, CanonText(x.m[j].val))]
                    IN [k |-> "o", c |-> x.c, m |-> {y \in {c[j] : j \in 1..Len(c)} : x.c = "" \/ ~Falsy(y.val)}]
    [] OTHER -> x
SameText(a, b) == CanonText(a) = CanonText(b)

(* ---- what can be stored ---- *)
Homogeneous(q) == Cardinality(KindsIn(q)) <= 1 /\ KindsIn(q) \subseteq Scalars
RowKinds(q) == UNION {IF q[j].k = "l" THEN KindsIn(q[j].v) ELSE {} : j \in 1..Len(q)}
Table(q) == KindsIn(q) \subseteq {"l"} /\ Cardinality(RowKinds(q)) <= 1 /\ RowKinds(q) \subseteq {"i", "f", "s"}
RECURSIVE Storable(_)
Plain(x) == \/ x.k \in Scalars \cup {"n"}
            \/ x.k = "l" /\ (Homogeneous(x.v) \/ (Table(x.v) /\ RowKinds(x.v) \subseteq {"s"}))
Simple(x) == x.k = "o" /\ \A j \in 1..Len(x.m) : Plain(x.m[j].val)
Keys(x) == {x.m[j].key : j \in 1..Len(x.m)}
Alike(q) == \A j \in 1..Len(q) : Simple(q[j]) /\ q[j].c = q[1].c /\ Keys(q[j]) = Keys(q[1])
At(x, key) == x.m[CHOOSE j \in 1..Len(x.m) : x.m[j].key = key].val
Column(q, key) == [j \in 1..Len(q) |-> At(q[j], key)]
StorableColumn(q) == Homogeneous(q) \/ Table(q)
Storable(x) ==
  CASE x.k = "l" -> IF Homogeneous(x.v) THEN TRUE ELSE IF Table(x.v) THEN TRUE
                    ELSE IF \E j \in 1..Len(x.v) : x.v[j].k # "o" THEN FALSE
                    ELSE IF Alike(x.v) THEN \A key \in Keys(x.v[1]) : StorableColumn(Column(x.v, key))
                    ELSE \A j \in 1..Len(x.v) : \A i \in 1..Len(x.v[j].m) : Storable(x.v[j].m[i].val)
    [] x.k = "o" -> \A j \in 1..Len(x.m) : Storable(x.m[j].val)
    [] OTHER -> TRUE

(* ---- the file: groups with scalars, arrays with gaps, columns of uniform objects and numbered sub-groups ---- *)
RECURSIVE Widest(_)
Widest(q) == IF q = <<>> THEN 0 ELSE LET w == IF q[1].k = "l" THEN Len(q[1].v) ELSE 0 r == Widest(Tail(q)) IN IF w > r THEN w ELSE r
Cell(x, kind) == IF kind = "s" /\ x.k = "n" THEN S("") ELSE x
OneKind(K) == IF K = {} THEN "s" ELSE CHOOSE k \in K : TRUE
Array(q) ==                                  (* [shape, data]; nothing at all when every element is missing *)
  IF KindsIn(q) = {} THEN [shape |-> "none", data |-> <<>>]
  ELSE IF Homogeneous(q) THEN [shape |-> "one", data |-> [j \in 1..Len(q) |-> Cell(q[j], OneKind(KindsIn(q)))]]
  ELSE LET kind == OneKind(RowKinds(q)) w == Widest(q)
       IN [shape |-> IF kind = "s" THEN "text" ELSE "numbers",
           data |-> [j \in 1..Len(q) |-> [i \in 1..w |-> IF q[j].k = "l" /\ i <= Len(q[j].v) THEN Cell(q[j].v[i], kind) ELSE (IF kind = "s" THEN S("") ELSE Nil)]]]
RECURSIVE Encode(_)
Encode(x) ==
  CASE x.k \in Scalars -> [f |-> "attr", x |-> x]
    [] x.k = "n" -> [f |-> "absent", x |-> Nil]
    [] x.k = "o" -> [f |-> "group", c |-> x.c, m |-> [j \in 1..Len(x.m) |-> [key |-> x.m[j].key, val |-> Encode(x.m[j].val)]]]
    [] x.k = "l" /\ x.v = <<>> -> [f |-> "absent", x |-> Nil]
    [] x.k = "l" /\ (Homogeneous(x.v) \/ Table(x.v)) -> [f |-> "array", x |-> Array(x.v)]
    [] x.k = "l" /\ Alike(x.v) -> [f |-> "columns", c |-> x.v[1].c, n |-> Len(x.v), m |-> [j \in 1..Len(x.v[1].m) |-> [key |-> x.v[1].m[j].key, val |-> Array(Column(x.v, x.v[1].m[j].key))]]]
    [] OTHER -> [f |-> "numbered", q |-> [j \in 1..Len(x.v) |-> Encode(x.v[j])]]
RowBack(a, j) == IF a.shape = "text" THEN L(a.data[j]) ELSE L(SelectSeq(a.data[j], LAMBDA y : y # Nil))
ElementBack(a, j) == IF a.shape = "one" THEN a.data[j] ELSE RowBack(a, j)
ArrayBack(a) == IF a.shape = "none" THEN Nil ELSE L([j \in 1..Len(a.data) |-> ElementBack(a, j)])
RECURSIVE Decode(_)
Decode(g) ==
  CASE g.f \in {"attr", "absent"} -> g.x
    [] g.f = "array" -> ArrayBack(g.x)
    [] g.f = "group" -> O(g.c, [j \in 1..Len(g.m) |-> Mem(g.m[j].key, Decode(g.m[j].val))])
    [] g.f = "columns" -> L([j \in 1..g.n |-> O(g.c, [i \in 1..Len(g.m) |-> Mem(g.m[i].key, IF g.m[i].val.shape = "none" THEN Nil ELSE ElementBack(g.m[i].val, j))])])
    [] g.f = "numbered" -> L([j \in 1..Len(g.q) |-> Decode(g.q[j])])
=============================================================================
