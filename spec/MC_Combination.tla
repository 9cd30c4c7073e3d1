-------------------------- MODULE MC_Combination --------------------------
(* Small combinations, nested or not, whose parameters are set and whose     *)
(* values are looked up through the layout.                                  *)
EXTENDS Combination, TLC, Json
CONSTANTS MaxLeaves, MaxN, MaxK, MaxSets, Emit
VARIABLES tree, ns, ks, par, log
vars == <<tree, ns, ks, par, log>>
Leaf(i) == [leaf |-> i]
Sub(s) == [sub |-> s]
Trees(m) == CASE m = 1 -> {Sub(<<Leaf(1)>>), Sub(<<Sub(<<Leaf(1)>>)>>)}
  [] m = 2 -> {Sub(<<Leaf(1), Leaf(2)>>), Sub(<<Sub(<<Leaf(1), Leaf(2)>>)>>), Sub(<<Sub(<<Leaf(1)>>), Leaf(2)>>), Sub(<<Leaf(1), Sub(<<Leaf(2)>>)>>)}
  [] OTHER -> {Sub(<<Leaf(1), Leaf(2), Leaf(3)>>), Sub(<<Sub(<<Leaf(1), Leaf(2)>>), Leaf(3)>>), Sub(<<Leaf(1), Sub(<<Leaf(2), Leaf(3)>>)>>), Sub(<<Leaf(1), Sub(<<Leaf(2)>>), Leaf(3)>>)}
K == Sum(ks)
Fresh(v) == \E p \in 1 .. K : v[p] # par[p]
Init == \E m \in 1 .. MaxLeaves :
  /\ tree \in Trees(m) /\ ns \in [1 .. m -> 0 .. MaxN] /\ ks \in [1 .. m -> 0 .. MaxK]
  /\ par = [p \in 1 .. Sum(ks) |-> 0] /\ log = <<>>
SetAll == /\ Len(log) < MaxSets /\ par' \in [1 .. K -> {0, 1}] /\ log' = Append(log, par') /\ UNCHANGED <<tree, ns, ks>>
Refused == /\ Len(log) < MaxSets /\ log' = Append(log, [p \in 1 .. K + 1 |-> 1]) /\ UNCHANGED <<tree, ns, ks, par>>
Next == SetAll \/ Refused
Spec == Init /\ [][Next]_vars
L == Leaves(tree)
N(i) == ns[i]
(* blocks are disjoint, contiguous, in order, and cover everything *)
Cover == \A sizes \in {[i \in DOMAIN L |-> ns[L[i]]], [i \in DOMAIN L |-> ks[L[i]]]} :
  /\ \A x \in 1 .. Sum(sizes) : Cardinality({i \in DOMAIN sizes : Off(sizes, i) < x /\ x <= Off(sizes, i) + sizes[i]}) = 1
  /\ \A i \in DOMAIN sizes : i < Len(sizes) => Off(sizes, i + 1) = Off(sizes, i) + sizes[i]
(* members of the tree own what their leaves own *)
Nested == Cat(Split([x \in 1 .. Sum(ns) |-> x], Sizes(tree, N))) = [x \in 1 .. Sum(ns) |-> x]
(* setting and getting are inverse; one parameter belongs to one leaf *)
Inverse == Cat(Split(par, ks)) = par
One == \A p \in 1 .. K : LET v == [par EXCEPT ![p] = 1 - @] IN {i \in DOMAIN ks : Split(v, ks)[i] # Split(par, ks)[i]} = {Owner(ks, p)}
(* values of a block matrix at the places of other blocks are zero *)
Full(i) == {<<r, c, 1>> : r \in 1 .. ns[i], c \in 1 .. ns[i]}
Confined == LET q == Diagonal([i \in DOMAIN ns |-> Full(i)], ns)
                own(x) == CHOOSE i \in DOMAIN ns : Off(ns, i) < x /\ x <= Off(ns, i) + ns[i]
            IN Cardinality(q) = Sum([i \in DOMAIN ns |-> ns[i] * ns[i]]) /\ \A e \in q : own(e[1]) = own(e[2])
Export == IF Emit /\ Len(log) = MaxSets THEN PrintT("@@SC " \o ToJson([tree |-> tree, ns |-> ns, ks |-> ks, sets |-> log])) ELSE TRUE
=============================================================================
