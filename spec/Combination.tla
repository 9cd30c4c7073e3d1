---------------------------- MODULE Combination ----------------------------
(* Combined models.  A combination is a sequence of elements; an element is  *)
(* a leaf or again a combination.  Every leaf has n state variables and k    *)
(* parameters.  The layout of state and parameters is the order of the       *)
(* leaves.  Matrices are sets of entries <<row, column, value>> (counted     *)
(* from one) with values in units of 1/S.                                    *)
EXTENDS Integers, Sequences, FiniteSets
S == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Leaves(_)
Leaves(node) == IF "leaf" \in DOMAIN node THEN <<node.leaf>>
  ELSE LET f[i \in 0 .. Len(node.sub)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o Leaves(node.sub[i]) IN f[Len(node.sub)]
Cat(ss) == LET f[i \in 0 .. Len(ss)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o ss[i] IN f[Len(ss)]
SumTo(s, m) == LET f[i \in 0 .. m] == IF i = 0 THEN 0 ELSE f[i - 1] + s[i] IN f[m]
Sum(s) == SumTo(s, Len(s))
(* first place and size of the block of entry i of a list of sizes *)
Off(sizes, i) == SumTo(sizes, i - 1)
Block(x, sizes, i) == SubSeq(x, Off(sizes, i) + 1, Off(sizes, i) + sizes[i])
Split(x, sizes) == [i \in DOMAIN sizes |-> Block(x, sizes, i)]
(* sizes of the direct members of a combination *)
Sizes(tree, of(_)) == [i \in DOMAIN tree.sub |-> Sum([j \in DOMAIN Leaves(tree.sub[i]) |-> of(Leaves(tree.sub[i])[j])])]
Shift(m, r, c) == {<<e[1] + r, e[2] + c, e[3]>> : e \in m}
(* side by side and along the diagonal *)
Beside(ms, sizes) == UNION {Shift(ms[i], 0, Off(sizes, i)) : i \in DOMAIN ms}
Diagonal(ms, sizes) == UNION {Shift(ms[i], Off(sizes, i), Off(sizes, i)) : i \in DOMAIN ms}
(* owner of parameter p and its number within the owner *)
Owner(ks, p) == CHOOSE i \in DOMAIN ks : Off(ks, i) < p /\ p <= Off(ks, i) + ks[i]
=============================================================================
